import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    d['anchors'].update(kw)
    P.append(d)
I='include/boost/cobalt/'
p('C01','Channels deliver every written value exactly once, in order, within capacity',
 'Every value whose write completed successfully is received by exactly one read, reads receive the values in the order the writes were issued, and no value is invented or duplicated. At most `capacity` written values are ever held unread (rendezvous for capacity 0), and an operation that can proceed (a write with room, a read with data or a partner) is never left suspended. The same holds, counting signals, for channel<void>.',
 ['schedules','histories','inputs'],'every interleaving of readers and writers, every capacity and every payload value, and every point in the history at which the event loop is allowed to run',
 'the outcome depends on which of several suspended readers/writers was already posted when another operation is issued; the upstream channel tests are not even built here and sample a handful of fixed schedules',
 [I+'channel.hpp',I+'impl/channel.hpp','src/channel.cpp'],
 [('read_op/write_op await_suspend and await_resume',I+'impl/channel.hpp'),('reader/writer intrusive queues',I+'channel.hpp'),('channel<void> counting',I+'impl/channel.hpp')])
p('C02','Closing or cancelling channel operations loses no data and strands no waiter',
 'close() completes every suspended read and write with an error, later writes fail with broken_pipe, and values buffered before the close stay readable until drained, after which reads fail with broken_pipe. Cancelling a suspended read or write completes that operation alone with operation_aborted, unless its value was already transferred, in which case it completes successfully; a cancelled write is not delivered and a cancelled read consumes nothing. is_open() reports the state.',
 ['schedules','histories'],'every history of reads, writes, cancellations and close, at every position relative to the completion of a transfer',
 'the interesting points are between the moment an operation was matched and the moment its coroutine resumes, which a test would have to hit deliberately for each combination',
 [I+'channel.hpp',I+'impl/channel.hpp','src/channel.cpp'],
 [('cancel_impl of read_op/write_op',I+'channel.hpp'),('channel::close',I+'impl/channel.hpp')])
p('C03','race completes with exactly one winner and waits for every interrupted loser',
 'A race resumes its awaiter exactly once, yields the index and result (or exception) of a child that actually completed first, and by then every other child has completed or been detached by interruption: no child outlives the race. Losers are cancelled (or interrupted when they support it) once a winner exists, children already ready win before suspending ones, and left_race checks strictly left to right.',
 ['schedules','histories','inputs'],'every order in which the children complete, succeed or fail, including simultaneously ready ones, and every order the random shuffle can produce',
 'the order of child completion and the shuffle are chosen by the environment; tests sample a few orders with timers',
 [I+'race.hpp',I+'detail/race.hpp',I+'detail/fork.hpp'],
 [('race_variadic_impl / race_ranged_impl await_impl',I+'detail/race.hpp'),('fork::promise_type, shared_state and wired-up check',I+'detail/fork.hpp'),('interrupt_await',I+'detail/race.hpp')])
p('C04','join returns positional results, or the first failure after cancelling the rest',
 'join resumes its awaiter once, after all children completed; when all succeed, result i is that of child i. When a child fails, the exception rethrown is that of the first failing child and the remaining children are cancelled and still awaited.',
 ['schedules','histories','inputs'],'every completion order, success/failure pattern, readiness pattern and payload of the children, variadic and ranged',
 'combinations of completion order, readiness and failures multiply; tests fix a few of them',
 [I+'join.hpp',I+'detail/join.hpp',I+'detail/fork.hpp'],[('join_variadic_impl / join_ranged_impl',I+'detail/join.hpp')])
p('C05','gather captures every outcome positionally and never cancels siblings on failure',
 'gather resumes its awaiter once, after all children completed, with a result per child in positional order holding either that child\'s value or its exception. A failing child does not cancel the others; cancelling the gather is forwarded to every child that is still running.',
 ['schedules','histories','inputs'],'every completion order, success/failure pattern, readiness pattern and payload of the children, variadic and ranged',
 'combinations of completion order, readiness and failures multiply; tests fix a few of them',
 [I+'gather.hpp',I+'detail/gather.hpp',I+'detail/fork.hpp'],[('gather_variadic_impl / gather_ranged_impl',I+'detail/gather.hpp')])
p('C06','A promise delivers its outcome exactly once through any moves and dies cleanly',
 'A promise starts eagerly and delivers its value or exception exactly once to whoever awaits it, however often the handle is moved or move-assigned before or after completion (while nobody is suspended on it); ready() and operator bool report the state. Destroying an attached promise cancels it, a detached one runs on untouched, and in every history all frames, results and exceptions are destroyed exactly once.',
 ['histories','schedules'],'every sequence of moves, move-assignments, detach/attach, awaits, get() calls and destructions, before or after the coroutine completed with a value or exception',
 'the failing histories move a handle at one particular phase of the coroutine life cycle and corrupt memory silently',
 [I+'promise.hpp',I+'detail/promise.hpp'],[('promise_receiver move and destruction',I+'detail/promise.hpp'),('promise_receiver::awaitable',I+'detail/promise.hpp')])
p('C07','Generators yield each value once, in order, and pair pushed values with yields',
 'Each co_await of a generator produces the next yielded value in order, the final co_return value ends it, and exceptions surface at the await that would have received the value. With a push type, the n-th pushed value is the result of the yield it resumes; an eager generator runs ahead by one value and a lazy one never starts before it is awaited. Moving the handle does not disturb this and destroying it cancels the generator.',
 ['histories','schedules','inputs'],'every number of yields, suspension pattern inside the body, await/move/cancel history, and pushed values',
 'needs particular combinations of suspended bodies, pending pushes and moves',
 [I+'generator.hpp',I+'detail/generator.hpp'],[('generator_receiver and its awaitable',I+'detail/generator.hpp'),('generator_yield_awaitable',I+'detail/generator.hpp')])
p('C08','An awaited op resumes its coroutine exactly once with the handler\'s values',
 'Awaiting an op delivers exactly the arguments its completion handler was invoked with, whether it completes immediately (ready), inline during initiation, or later, and resumes the awaiting coroutine exactly once. An initiation that throws surfaces as an exception in the awaiter, error codes surface as exceptions only without as_result/as_tuple, and a handler destroyed without being called never resumes the coroutine but destroys it.',
 ['schedules','inputs','fault_sequences'],'every completion mode and timing, all argument values, both result styles, and initiations that throw before or after storing the handler',
 'the completion mode is chosen by the I/O object; inline and immediate completion are rare and racy in tests',
 [I+'op.hpp',I+'detail/handler.hpp','src/detail/util.cpp'],[('op::awaitable_base',I+'op.hpp'),('completion_handler',I+'detail/handler.hpp')])
p('C09','The small-buffer resource never overlaps, misaligns or misroutes an allocation',
 'Blocks returned while live are disjoint, correctly aligned and lie either completely inside the user buffer or come from the upstream resource. Deallocation returns upstream blocks, and only those, to the upstream resource with the same size and alignment, and freed space in the buffer becomes usable again.',
 ['inputs','histories'],'every buffer size, request size and alignment, and every bounded allocate/deallocate sequence',
 'needs particular size/alignment combinations around the remaining space',
 [I+'detail/sbo_resource.hpp'],[('sbo_resource::do_allocate/do_deallocate',I+'detail/sbo_resource.hpp')])
p('C10','The combinators\' monotonic resource never overlaps or misaligns blocks',
 'Every block returned is aligned as requested, lies completely within the initial buffer or a chunk obtained from upstream, and is disjoint from every block handed out before. Releasing the resource returns every chunk exactly once.',
 ['inputs','histories'],'every request size and alignment and every bounded allocation sequence',
 'needs particular alignment and remaining-size combinations',
 [I+'detail/monotonic_resource.hpp'],[('monotonic_resource::allocate/release',I+'detail/monotonic_resource.hpp')])
p('C11','Buffer sequences describe exactly the bytes of their source minus those consumed',
 'A (mutable or const) buffer sequence built from any buffers visits exactly these buffers in order, and advancing it by n drops exactly the first n bytes, whatever the split into buffers. Copies and conversions describe the same bytes, and its iterators are consistent random-access iterators over [begin,end).',
 ['inputs','histories'],'every number of buffers up to the bound, every (64-bit) buffer size and every sequence of advances',
 'off-by-ones appear only at particular size/advance boundaries and iterator mixes',
 [I+'io/buffer.hpp'],[('operator+=',I+'io/buffer.hpp'),('const_iterator',I+'io/buffer.hpp')])
p('C12','Endpoints round-trip address, port and path through the native sockaddr',
 'Constructing an endpoint for a protocol and reading it back yields the same protocol, address, port or path, and the native data and size are what the platform expects for that family. Reading an endpoint as the wrong kind fails instead of yielding garbage, and paths too long for the address are rejected.',
 ['inputs'],'every IPv4/IPv6 address, port, scope id, and every path up to (and past) the platform limit',
 'byte-order and length slips show only for particular values',
 [I+'io/endpoint.hpp','src/io/endpoint.cpp'],[('make_endpoint_tag overloads','src/io/endpoint.cpp'),('endpoint conversions',I+'io/endpoint.hpp')])
p('C13','read/write (and _at forms) transfer exact bytes and report the exact count',
 'Reading or writing a buffer completely issues partial operations until all bytes moved or an error occurred, in order and (for the _at forms) at the right offsets, never touching a byte twice or skipping one. The result reports the exact number of bytes moved together with the first error, and cancellation between two partial operations stops it.',
 ['inputs','fault_sequences','schedules'],'every buffer split, every sequence of partial transfer sizes, completion modes and errors',
 'partial transfers and their interplay with errors are decided by the device',
 [I+'io/read.hpp',I+'io/write.hpp','src/io/read.cpp','src/io/write.cpp'],[('read_all::initiate','src/io/read.cpp'),('write_all::initiate','src/io/write.cpp')])
p('C14','with() always tears its resource down exactly once and keeps the first error',
 'The teardown runs exactly once after the body finished, however it finished, and the value or exception of the body is what the awaiter gets; the teardown is told about the exception. Resource and arguments outlive both and are destroyed exactly once.',
 ['fault_sequences','schedules','inputs'],'every combination of synchronous/suspending body and teardown, each succeeding or throwing, for values and void',
 'needs particular exception/suspension combinations; the with test is not built here',
 [I+'with.hpp',I+'detail/with.hpp'],[('with_impl',I+'detail/with.hpp'),('with overloads',I+'with.hpp')])
p('C15','wait_group waits for and reports its members and never loses or repeats one',
 'wait_one() completes when one of the members present when it started has finished, surfaces its exception if it failed, and removes exactly it; wait() completes once every member finished, including those pushed meanwhile, and swallows their exceptions. cancel() and leaving the group cancel the members, reap() removes exactly the finished ones, and size() always equals the number of members not yet removed.',
 ['histories','schedules'],'every history of push, wait_one, wait, cancel and reap with members completing, successfully or not, at any point',
 'the order of completions relative to waits decides the outcome',
 [I+'wait_group.hpp',I+'detail/wait_group.hpp'],[('race_wrapper, gather_wrapper',I+'detail/wait_group.hpp'),('wait_group',I+'wait_group.hpp')])
p('C16','Coroutine frames and handlers return to the allocator they came from, unchanged',
 'Frames of promises, generators and detached coroutines come from the default resource of the thread at their creation, those of tasks from the global default, and either from a polymorphic_allocator following std::allocator_arg in any position; completions use the allocator associated with their handler. Every such block is freed exactly once to the same resource with the same size and alignment. No history of completion, cancellation or destruction leaks one or uses it after it was freed.',
 ['histories','fault_sequences','configurations'],'every coroutine type, resource choice, frame payload size and completion/destruction history',
 'mismatched size or resource is silent with the default allocator',
 [I+'this_coro.hpp',I+'composition.hpp',I+'unique_handle.hpp'],[('promise_memory_resource_base',I+'this_coro.hpp'),('allocate_coroutine',I+'unique_handle.hpp')])
p('C17','as_result, as_tuple and plain await agree and never drop an error or value',
 'For the same completion, a plain await throws exactly when as_result holds an error and as_tuple reports a non-empty error, and otherwise all three carry the same values. This holds for error codes, exception pointers, multiple values and void.',
 ['inputs'],'all error values and payloads for each completion signature',
 'combinations of signature, error and await style are sampled by tests only',
 [I+'result.hpp',I+'op.hpp'],[('interpret_as_result',I+'result.hpp'),('as_result_t / as_tuple_t',I+'result.hpp')])
p('C18','Cancellation passes the coroutine\'s filter and throws only when enabled',
 'A cancellation signalled to a coroutine is visible in its cancellation state exactly as far as its filters let it through, is forwarded to what it currently awaits and to nothing that already finished, and makes the next await throw operation_aborted exactly when throw_if_cancelled is enabled. reset_cancellation_state clears it and installs the new filters. Destroying or overwriting an attached promise (or a generator) cancels its coroutine, a detached one does not.',
 ['inputs','schedules','histories'],'every combination of signalled types, filters, throw_if_cancelled settings, and timing relative to awaits',
 'combinations of masks and timing',
 [I+'this_coro.hpp'],[('promise_cancellation_base, promise_throw_if_cancelled_base',I+'this_coro.hpp'),('forward_cancellation',I+'detail/forward_cancellation.hpp')])
p('C19','I/O object wrappers return every system failure as the error, nothing else',
 'The synchronous functions of files, pipes and sockets return an error exactly when the underlying system call failed, carrying its error code, and otherwise its exact value. None throws or aborts instead, and a failed call leaks no descriptor.',
 ['fault_sequences','inputs'],'every result of every system call issued by the wrapper',
 'system calls that fail are rare; tests only see successful ones',
 ['src/io/file.cpp','src/io/pipe.cpp','src/io/socket.cpp','src/io/stream_socket.cpp'],[('file::open etc','src/io/file.cpp'),('pipe','src/io/pipe.cpp'),('socket','src/io/socket.cpp')])
p('C20','A thread\'s completion and its cancellation reach the other side exactly once',
 'A cobalt thread started on its own OS thread completes its join exactly once with the coroutine\'s outcome, and cancellation sent from another thread reaches it without a data race.',
 ['schedules'],'every interleaving of the two threads',
 'the interleavings of two OS threads cannot be sampled exhaustively',
 [I+'thread.hpp',I+'detail/thread.hpp','src/thread.cpp'],[('thread_state, signal_helper_2',I+'detail/thread.hpp'),('run_thread','src/thread.cpp')])
p('C21','Tasks start only when awaited or spawned and complete exactly once',
 'A task does nothing until it is awaited or spawned, then runs to completion and delivers its value or exception exactly once to the awaiter, spawn completion token or run(). An unstarted or abandoned task is destroyed without running its body, and its arguments and frame are released exactly once.',
 ['histories','schedules','inputs'],'every history of creating, moving, awaiting, spawning, cancelling and destroying tasks that complete synchronously or later, with values or exceptions',
 'task and spawn tests are not built here; the interplay with executor and cancellation is schedule dependent',
 [I+'task.hpp',I+'detail/task.hpp',I+'spawn.hpp',I+'detail/spawn.hpp',I+'run.hpp'],[('task_receiver',I+'detail/task.hpp'),('async_initiate_spawn',I+'detail/spawn.hpp'),('run',I+'run.hpp')])
p('C22','Posted or completed coroutines resume once, on their own executor',
 'A coroutine handle, post_coroutine handler or awaited asio operation that is posted, dispatched or completed resumes exactly once on its own or associated executor, and is destroyed rather than leaked if the executor drops it. A coroutine keeps the executor it was created (the thread executor or an executor_arg), spawned or awaited with; the thread executor is the last one set, is cleared when its context is destroyed, and asking for an unset one is an error.',
 ['schedules','histories'],'every post/dispatch/drop choice for several coroutines and executors',
 'drop-on-shutdown and cross-executor completion are rarely exercised',
 [I+'unique_handle.hpp',I+'this_coro.hpp','src/this_thread.cpp'],[('executor_wrapper deleter',I+'unique_handle.hpp'),('this_thread','src/this_thread.cpp')])
p('C23','Composed operations forward initiator values and complete exactly once',
 'A composed operation written as a coroutine (BOOST_COBALT composition) completes its handler exactly once with the values it co_returned; awaits inside it give the results of the operation as a tuple, and an exception thrown before its first suspension surfaces in the awaiter. Its frame is released exactly once, also when it is abandoned, and cancellation of the handler reaches the operation currently awaited inside.',
 ['schedules','inputs','fault_sequences'],'every sequence of inner operations completing immediately or later, with errors or values, or throwing',
 'compositions are tested with one or two fixed flows',
 [I+'composition.hpp'],[('composition_promise',I+'composition.hpp')])
p('C24','Stackful coroutines in the experimental context resume and unwind correctly',
 'A coroutine run on a boost.context stack delivers its outcome once and its stack is unwound exactly once on destruction.',
 ['histories'],'every history of resumption and destruction',
 'relies on stack switching',[I+'experimental/context.hpp'],[('context_frame_base',I+'experimental/context.hpp')])
import sys
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
