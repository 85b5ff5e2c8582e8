"""What each check runs: harness units, entries, reachability witnesses and stated bounds."""
def E(name, claim, bound, reach=(), **kw):
    return dict(name=name, claim=claim, bound=bound, reach=list(reach), **kw)

SPECS = {}

def both(f):  # mutable and const flavour of a buffer harness
    return [f('m', 'mutable'), f('c', 'const')]

_k = {'quick': 'up to 4 buffers, any addresses below 2^47, any sizes below 2^40', 'thorough': 'up to 5 buffers, any addresses below 2^47, any sizes below 2^40'}
SPECS['C11'] = dict(units=[dict(file='buffer.cpp', sources='none', entries=
    both(lambda s, n: E('buf_construct_' + s, 'a %s_buffer_sequence visits exactly the buffers of its source' % n, _k, ['visited', 'max'])) +
    both(lambda s, n: E('buf_advance_' + s, '+= n drops exactly the first n bytes (%s)' % n, _k, ['all consumed', 'some left'])) +
    both(lambda s, n: E('buf_advance2_' + s, '+= n += m drops exactly the first n+m bytes (%s)' % n, {'quick': 'up to 2 buffers, sizes below 2^16', 'thorough': 'up to 3 buffers, sizes below 2^16'}, ['all consumed', 'some left'])) +
    both(lambda s, n: E('buf_iter_' + s, '%s iterators are consistent random access iterators at any two positions' % n, _k, ['dereferenced'])) +
    [E('buf_convert', 'conversions from buffers, arrays and vectors', 'one or two buffers, any addresses and sizes', ['end']),
     E('buf_copy_bytes', 'bytes copied through sequences after dropping a prefix', 'three source buffers (<=3,2,1 bytes), two targets (<=3 bytes), any contents', ['end'])])],
    assumptions=['the build without io_uring registered buffers (the configuration of this sandbox)'])

_b = 'any misalignment, any buffer and block sizes below 4096'
SPECS['C09'] = dict(units=[dict(file='sbo.cpp', sources='none', entries=[
    E('sbo_history', 'blocks are disjoint, aligned, inside the buffer or from upstream; frees go back where they came from', {'quick': 'every history of 4 operations, alignments up to 16; ' + _b, 'thorough': 'every history of 5 operations, alignments up to 16; ' + _b}, ['upstream', 'buffer', 'freed']),
    E('sbo_over_aligned', 'the same with over-aligned requests', {'quick': 'every history of 3 operations, alignments up to 64; ' + _b, 'thorough': '4 operations; ' + _b}, ['upstream', 'buffer', 'freed']),
    E('sbo_no_buffer', 'a resource without buffer forwards everything', 'every history of 4 operations; any block sizes below 4096', ['upstream', 'freed']),
    E('sbo_fragment', 'blocks handed out after out-of-order frees do not overlap the remaining ones', {'quick': 'three blocks (1..127 bytes), one or two frees, one more block; buffers below 256 bytes', 'thorough': 'and a further block'}, ['reused', 'upstream']),
    E('sbo_recycle', 'after everything is freed in any order the whole buffer is usable again', {'quick': 'up to 3 blocks, sizes below 4096', 'thorough': 'up to 4 blocks'}, ['recycled']),
    E('sbo_lifo', 'space freed in reverse order is reused', 'two blocks, sizes below 2^40', ['end']),
    E('sbo_arrays', 'elements stored through sbo_allocator do not overlap', 'buffers of up to 47 bytes at any misalignment, two arrays', ['end'])])],
    assumptions=['the pmr build of cobalt (BOOST_COBALT_NO_PMR unset)', 'requests whose size is not within 16 of SIZE_MAX'])

SPECS['C10'] = dict(units=[dict(file='mono.cpp', sources='none', entries=[
    E('mono_buffer', 'blocks from the initial buffer are aligned, inside it and disjoint', {'quick': 'three blocks, buffers below 4096 bytes at 8 misalignments, sizes below 1024, alignments 1, 8, 16, 64', 'thorough': 'four blocks, any misalignment, alignments 1..64'}, ['in the buffer', 'reused']),
    E('mono_chunks2', 'blocks from chunks are aligned, inside, disjoint, and chunks are released once', {'quick': 'two blocks of 1, 7, 8 or 15 bytes, alignments 1, 8, 16, 64, five chunk sizes or six small buffers', 'thorough': 'eight sizes up to 40 bytes, alignments 1..64'}, ['two chunks', 'released']),
    E('mono_chunks3', 'three blocks over several chunks', {'quick': 'sizes 8 and 11; alignments 8 and 16; chunk sizes 1..9', 'thorough': 'sizes 1, 8, 11, 40; alignments 8, 16, 64; chunk sizes 1..20'}, ['end']),
    E('mono_alloc', 'arrays through monotonic_allocator, with and without resource', 'up to 5 ints and 4 longs in buffers of 1..64 bytes', ['end'])])],
    assumptions=['chunks are aligned exactly as requested (minimum 16) and never better'])

SPECS['C12'] = dict(units=[dict(file='endpoint.cpp', sources='endpoint', entries=[
    E('ep_v4', 'ipv4 endpoints read back and have the native layout', 'every address and port; three protocols', ['end']),
    E('ep_v6', 'ipv6 endpoints read back and have the native layout', 'every address and port; three protocols', ['end']),
    E('ep_unix', 'unix endpoints read back, longer paths are rejected', '13 path lengths from 0 to 200, any non-zero bytes at five positions, four protocols', ['fits', 'too long']),
    E('ep_v4_text', 'textual ipv4 addresses are parsed and printed back', {'quick': 'three digit-count shapes, any digits', 'thorough': 'four digit-count shapes'}, ['valid', 'invalid']),
    E('ep_v6_text', 'textual ipv6 addresses are parsed and printed back', 'six forms with up to two free hex digits, eleven malformed texts', ['valid', 'invalid']),
    E('ep_text_long', 'texts too long for the family are rejected', 'lengths 14 to 60', ['too long']),
    E('ep_wrong_kind', 'reading as a kind succeeds exactly when it matches', 'any family, type below 8, protocol below 256; 14 kinds; six sizes', ['end']),
    E('ep_from_asio', 'asio endpoints convert with everything they describe', 'every address, scope and port', ['end']),
    E('ep_protocols', 'predefined protocols are those of the platform', 'all of them', ['end'])])],
    assumptions=['inet_pton and inet_ntop are modelled (rt/rt.cpp) after glibc; zone ids are not used', 'paths contain no zero byte'])

_q = lambda q, t: {'quick': q, 'thorough': t}
SPECS['C01'] = dict(units=[dict(file='channel.cpp', sources='core', entries=[
    E('chan_int', 'three coroutines reading and writing a channel<int>', _q('3 coroutines of up to 3 operations, each a read or a write; capacities 0..2; any payload', 'capacities 0..3'), ['written', 'read', 'write suspended', 'read suspended']),
    E('chan_int_yield', 'coroutines that also yield to the executor', _q('2 coroutines of up to 3 reads, writes or yields; capacities 0..1', '3 coroutines'), ['written', 'read']),
    E('chan_tok', 'a move-only payload', _q('2 coroutines of up to 4 operations; capacities 0..2', '3 coroutines of 3'), ['written', 'read']),
    E('chan_void', 'three coroutines reading and writing a channel<void>', _q('3 coroutines of up to 3 operations; capacities 0..2', 'capacities 0..3'), ['written', 'read', 'write suspended', 'read suspended']),
    E('chan_void_yield', 'channel<void> with yields', _q('2 coroutines of up to 3 operations or yields; capacities 0..1', '3 coroutines'), ['written', 'read']),
    E('chan_stream', 'one producer, one consumer', _q('4 values, capacities 0..3, yields anywhere', '6 values'), ['written', 'read']),
    E('chan_race', 'left_race over reads of two channels loses nothing', 'capacities 0..1, up to 2 values per channel, three start orders', ['all'])])],
    assumptions=['one thread; asio io_context as executor'])
SPECS['C02'] = dict(units=[dict(file='channel.cpp', sources='core', entries=[
    E('chan_cancel', 'cancelling any of three coroutines on a channel', _q('3 coroutines of up to 2 operations, 2 control steps (cancel one, yield), capacities 0..1', '3 control steps'), ['cancelled', 'aborted']),
    E('chan_cancel2', 'cancelling either of two coroutines', _q('2 coroutines of up to 2 operations, 3 control steps, capacities 0..2', '3 operations'), ['cancelled', 'aborted']),
    E('chan_close', 'closing and cancelling', _q('2 coroutines of up to 2 operations, 3 control steps (cancel, yield, close), capacities 0..2', '3 coroutines'), ['closed', 'cancelled']),
    E('chan_close_tok', 'the same with a move-only payload', '3 coroutines of 1 operation, 2 control steps, capacities 0..1', ['closed', 'cancelled']),
    E('chan_void_control', 'channel<void>: closing and cancelling', _q('3 coroutines of 1 operation, 3 control steps, capacities 0..1', '2 operations, 2 control steps'), ['closed', 'cancelled']),
    E('chan_void_control2', 'channel<void>: two operations each', '2 coroutines of up to 2 operations, 3 control steps, capacities 0..2', ['closed', 'cancelled']),
    E('chan_stale', 'operations created before the close', 'capacities 0..2', ['end']),
    E('chan_destroy', 'destroying a channel with waiters', 'up to 3 waiters, capacities 0..1', ['end'])])],
    assumptions=['one thread; asio io_context as executor'])

SPECS['C06'] = dict(units=[dict(file='promise.cpp', sources='core', entries=[
    E('prom_tok', 'histories over two coroutines and three handles, move-only results', _q('3 steps of run, move, assign, destroy, cancel, detach, await; up to 2 suspensions per coroutine', '4 steps'), ['value', 'aborted', 'assigned']),
    E('prom_throw', 'the same with bodies that may throw', _q('two handles, 3 steps, up to 1 suspension', '4 steps'), ['value', 'exception', 'assigned', 'escaped']),
    E('prom_void', 'void results, awaited plainly, as_result, as_tuple or taken with get()', _q('3 steps, up to 1 suspension', '4 steps'), ['value', 'assigned']),
    E('prom_one', 'one coroutine, three handles', _q('4 steps, up to 2 suspensions', '6 steps'), ['value', 'exception', 'aborted', 'get']),
    E('prom_twice', 'a second awaiter fails and does not disturb the first', 'up to 2 suspensions, three styles each', ['second']),
    E('prom_noop', 'already completed promises', 'any value, moves and swaps', ['end'])])],
    assumptions=['a handle is not moved or destroyed while another coroutine is suspended on it', 'bodies handle their own cancellation'])

SPECS['C03'] = dict(units=[dict(file='race.cpp', sources='core', entries=[
    E('race_mixed', 'left_race of an int, a void and a move-only child', 'three children; ready, completing while suspending or later in any order; succeeding or failing; cancelled or not', ['loser cancelled', 'cancelled', 'completed later', 'at once', 'exception']),
    E('race_mixed_shuffled', 'race of lvalues in every shuffled order', 'the same, without cancellation', ['loser cancelled', 'completed later', 'at once', 'exception']),
    E('race_void', 'all void', 'the same', ['loser cancelled', 'cancelled', 'completed later', 'at once', 'exception']),
    E('race_styles', 'awaited plainly, as_result and as_tuple', 'the same', ['loser cancelled', 'completed later', 'at once', 'exception']),
    E('race_interrupt', 'interruptible children', 'the same', ['cancelled', 'completed later', 'at once', 'exception']),
    E('race_throwing', 'children that throw when started', 'the same', ['completed later', 'at once', 'exception']),
    E('race_trans', 'children that commit first and complete later', 'the same; up to two attempts to commit', ['transaction']),
    E('race_range', 'ranges of int', _q('one to three children', 'one to four children'), ['loser cancelled', 'cancelled', 'completed later', 'at once', 'exception']),
    E('race_range_shuffled', 'ranges of lvalues in every shuffled order', _q('one to three children', 'one to four children'), ['loser cancelled', 'completed later', 'at once', 'exception']),
    E('race_range_void', 'ranges of void', _q('one to three children', 'one to four children'), ['loser cancelled', 'cancelled', 'completed later', 'at once', 'exception']),
    E('race_range_interrupt', 'ranges of interruptible children', _q('one to three children', 'one to four children'), ['completed later', 'at once', 'exception']),
    E('race_range_throwing', 'ranges of children that throw when started', _q('one to three children', 'one to four children'), ['completed later', 'at once', 'exception']),
    E('race_range_trans', 'ranges of children that commit first', _q('one to three children', 'one to four children'), ['transaction']),
    E('race_promises', 'lvalue promises keep running when they lose', 'two promises, running or finished, failing or not', ['kept running']),
    E('race_promises_rvalue', 'rvalue promises are cancelled when they lose', 'two promises', ['not started']),
    E('race_promises_range', 'the same in ranges', 'two promises', ['kept running', 'not started']),
    E('race_gather', 'a gather inside a race', 'a gather of two children against a third one', ['inner wins', 'inner cancelled']),
    E('race_join', 'a join inside a race', 'a join of two children against a third one', ['inner wins', 'inner cancelled']),
    E('race_race', 'a race inside a race', 'a race of two children against a third one', ['inner wins', 'inner cancelled']),
    E('race_gather_int', 'a gather of interruptible children', 'as above', ['inner wins']),
    E('race_join_int', 'a join of interruptible children', 'as above', ['inner wins']),
    E('race_race_int', 'a race of interruptible children', 'as above', ['inner wins']),
    E('race_gathers', 'a gather over a range inside a race', 'a gather of two children against a third one', ['inner wins', 'inner cancelled']),
    E('race_joins', 'a join over a range inside a race', 'a join of two children against a third one', ['inner wins', 'inner cancelled']),
    E('race_races', 'a race over a range inside a race', 'a race of two children against a third one', ['inner wins', 'inner cancelled']),
    E('race_gathers_int', 'a gather over a range of interruptible children', 'as above', ['inner wins']),
    E('race_joins_int', 'a join over a range of interruptible children', 'as above', ['inner wins']),
    E('race_races_int', 'a race over a range of interruptible children', 'as above', ['inner wins']),
    E('race_keeps', 'a join or race of named promises that loses is interrupted, not cancelled', 'two promises, finished or not, variadic or in a range, completing before or after the winner', ['lost', 'kept running'])])],
    assumptions=['children complete inline when interrupted, and never inline from their cancellation handler'])

_c = 'three children: ready, completing while suspending or later in any order; succeeding or failing'
_r = _q('ranges of zero to three children', 'ranges of zero to four children')
for _pid, _n, _fail in (('C04', 'join', ['cancelled by failure']), ('C05', 'gather', [])):
    SPECS[_pid] = dict(units=[dict(file='join.cpp', sources='core', defs=['-DGATHER=%d' % (_n == 'gather')], entries=[
        E(_n + '_mixed', 'an int, a void and a move-only child', _c + '; cancelled or not', ['values', 'exception', 'cancelled', 'completed later', 'at once'] + _fail),
        E(_n + '_void', 'void children', _c + '; cancelled or not', ['values', 'exception', 'cancelled', 'completed later', 'at once'] + _fail),
        E(_n + '_styles', 'awaited plainly, as_result and as_tuple', _c, ['values', 'exception', 'completed later', 'at once'] + _fail),
        E(_n + '_throwing', 'children that throw when started', _c + ', or throwing when started', ['values', 'exception', 'completed later', 'at once'] + _fail),
        E(_n + '_range', 'ranges of int', _r, ['values', 'exception', 'cancelled', 'completed later', 'at once'] + _fail),
        E(_n + '_range_tok', 'ranges of move-only results, as lvalues, in all styles', _r, ['values', 'exception', 'completed later', 'at once'] + _fail),
        E(_n + '_range_void', 'ranges of void, in all styles', _r, ['values', 'exception', 'completed later', 'at once'] + _fail),
        E(_n + '_range_throwing', 'ranges of children that throw when started', _r, ['values', 'exception', 'completed later', 'at once'] + _fail),
        E(_n + '_promises', 'promises as children, as lvalues, rvalues and in ranges', 'three promises, running or finished, failing or not', ['values', 'exception'])])],
        assumptions=['children never complete inline from their cancellation handler'])

_g = 'up to 2 yields, each with or without a suspension before; '
SPECS['C07'] = dict(units=[dict(file='generator.cpp', sources='core', entries=[
    E('gen_void', 'eager and lazy generators awaited in all styles or read with get()', _q(_g + '4 steps of run, await, get', 'up to 3 yields, 6 steps'), ['value', 'exception', 'lazy start', 'get', 'dropped']),
    E('gen_push', 'move-only values, int pushes', _q(_g + '4 steps', 'up to 3 yields, 6 steps'), ['value', 'lazy start', 'get', 'dropped', 'pushes']),
    E('gen_push_tok', 'int values, move-only pushes', _q(_g + '3 steps', '5 steps'), ['value', 'exception', 'lazy start', 'get', 'dropped', 'pushes']),
    E('gen_interrupt', 'awaits interrupted by a race', _q(_g + '4 steps', '6 steps'), ['value', 'interrupted', 'lazy start']),
    E('gen_interrupt_push', 'awaits with pushes interrupted by a race', _q(_g + '4 steps', '6 steps'), ['value', 'interrupted', 'lazy start', 'pushes']),
    E('gen_move', 'moved and assigned between awaits', _q(_g + '4 steps', '6 steps'), ['value', 'interrupted', 'moved', 'exception']),
    E('gen_move_push', 'moved and assigned, with pushes', _q(_g + '4 steps', '5 steps'), ['value', 'interrupted', 'moved', 'pushes']),
    E('gen_control', 'cancelled, moved and destroyed', _q(_g + '4 steps', '5 steps'), ['value', 'moved', 'aborted', 'dropped']),
    E('gen_assign', 'one generator assigned over another, each eager or lazy, before or after reads', 'up to 2 yields and one suspension per body', ['value', 'lazy to lazy', 'eager over lazy', 'lazy over eager', 'eager to eager']),
    E('gen_assign_push', 'the same with pushes', 'up to 2 yields and one suspension per body', ['value', 'lazy to lazy', 'eager over lazy', 'lazy over eager', 'eager to eager']),
    E('gen_lazy_late', 'a lazy generator whose earlier await was interrupted (known finding)', '2 yields', []),
    E('gen_noop', 'generators born completed', 'any value', ['end'])])],
    assumptions=['a handle is not moved or destroyed while a coroutine is suspended on it', 'the body ends with co_return'])

_m = 'any argument values; 11 ways to complete (ready, inline, nested, posted, later, dropped, throwing) and three await styles'
_sigs = [('none', 'void()'), ('int', 'void(int)'), ('tok', 'void(move-only)'), ('int_tok', 'void(int, move-only)'), ('ec', 'void(error_code)'), ('ec_int', 'void(error_code, int)'), ('ec_tok', 'void(error_code, move-only)'),
         ('ec_int_tok', 'void(error_code, int, move-only)'), ('ep', 'void(exception_ptr)'), ('ep_tok', 'void(exception_ptr, move-only)'), ('ep_tok_int', 'void(exception_ptr, move-only, int)')]
SPECS['C08'] = dict(units=[dict(file='op.cpp', sources='core', entries=
    [E('op_' + n, 'operations of signature ' + t, _m, ['completed', 'initiation threw', 'dropped'] + (['error'] if n[0] == 'e' else [])) for n, t in _sigs] +
    [E('op_several', 'operations one after the other in a promise, task or detached coroutine', _q('2 operations', '3 operations'), ['end']),
     E('op_tokens', 'use_op and deferred as completion tokens', 'any value, three ways to complete, four ways to await', ['value', 'error', 'threw']),
     E('op_combined', 'operations as children of join and gather', 'two operations, seven ways to complete each, either order', ['end'])])],
    assumptions=['an initiation does not call its completion handler directly (it uses the immediate executor, as asio requires)'])

_st = 'any value, success or failure, plain await, as_result or as_tuple'
SPECS['C17'] = dict(units=[dict(file='result.cpp', sources='core', entries=
    [E('res_' + n, t, _st, ['value', 'error']) for n, t in [('promise_void', 'promise<void>'), ('promise_int', 'promise<int>'), ('promise_tok', 'promises of a move-only value'), ('promise_lvalue', 'promises awaited by name, before or after they finished'),
      ('task_void', 'task<void>'), ('task_tok', 'tasks of a move-only value'), ('task_rvalue', 'tasks awaited by name'), ('generator', 'generators'), ('hand_void', 'hand-written awaitables returning nothing'), ('hand_int', 'returning int'),
      ('hand_tok', 'returning a move-only value'), ('hand_tuple', 'returning a tuple'), ('channel', 'channel reads and writes'), ('interpret', 'the mapping of completion arguments to results, eleven signatures'), ('join', 'join and with')]] +
    [E('res_' + n, t, _st, ['value']) for n, t in [('hand_void_nothrow', 'noexcept awaitables returning nothing'), ('hand_tok_nothrow', 'noexcept awaitables returning a value'), ('noop', 'noop and coroutine types born completed')]]),
   dict(file='op.cpp', sources='core', entries=
    [E('op_' + n, 'operations of signature ' + t, _m, ['completed', 'error']) for n, t in _sigs if n in ('ec', 'ec_tok', 'ec_int_tok', 'ep', 'ep_tok')])],
    assumptions=['values are default constructible where as_tuple is used'])

SPECS['C15'] = dict(units=[dict(file='wait.cpp', sources='core', entries=[
    E('wg_history', 'histories of pushes, completions, waits, reaps, cancellations and leaving over two members', _q('5 steps', '6 steps'), ['one', 'all', 'empty', 'reaped', 'left']),
    E('wg_fail', 'the same with members that may fail', _q('5 steps; 6 seeds of the order wait_one looks in', '6 steps'), ['one', 'all', 'empty', 'reaped', 'left', 'member failed']),
    E('wg_three', 'the same over three members', _q('4 steps', '7 steps'), ['one', 'all', 'member failed']),
    E('wg_destroy', 'destroying the group', 'up to three members in any state', ['cancelled']),
    E('wg_with', 'a group as the resource of with()', 'up to two members, body suspending and failing or not', ['waited', 'failed', 'left'])])],
    assumptions=['at most one coroutine waits for the group at a time'])


_w = 'every combination of suspending, throwing at once or later, being cancelled and being abandoned, in body and teardown; awaited plainly or as_result'
SPECS['C14'] = dict(units=[dict(file='with.cpp', sources='core', entries=[
    E('with_async_void_member', 'asynchronous void body, await_exit member', _w, ['value', 'error', 'abandoned']),
    E('with_async_void_fn', 'asynchronous void body, teardown function', _w, ['value', 'error', 'abandoned']),
    E('with_async_void_obj', 'asynchronous void body, teardown that may modify the exception', _w, ['value', 'error', 'abandoned']),
    E('with_async_tok_member', 'asynchronous body with a move-only value', _w, ['value', 'error', 'abandoned']),
    E('with_async_tok_obj', 'the same, teardown that may modify the exception', _w, ['value', 'error', 'abandoned', 'cleared']),
    E('with_sync_void_obj', 'plain function as body', _w, ['value', 'error', 'abandoned']),
    E('with_sync_tok_obj', 'plain function with a move-only value', _w, ['value', 'error', 'abandoned', 'cleared']),
    E('with_sync_void_member', 'plain function, await_exit member', _w, ['value', 'error', 'abandoned']),
    E('with_sync_tok_member', 'plain function with a move-only value, await_exit member', _w, ['value', 'error', 'abandoned']),
    E('with_sync_tok_fn', 'the same, teardown function', _w, ['value', 'error', 'abandoned']),
    E('with_functor', 'body with state of its own', _w, ['value', 'error', 'abandoned']),
    E('with_unused', 'never awaited', 'one history', ['end']),
    E('with_gathered', 'two running concurrently', 'every order of completion', ['end'])])],
    assumptions=['the body and teardown return promises or are plain functions'])

_w = 'devices that move any part of the buffer, with or without an error, ready at once, immediately, posted or by hand, and cancelled at any point; up to {P} pieces of up to 2^40 bytes at any address, {S} steps; three await styles'
_w = {'quick': _w.format(P=2, S=3), 'thorough': _w.format(P=3, S=4)}
SPECS['C13'] = dict(units=[dict(file='rw.cpp', sources='ops', entries=
    [E('rw_' + n, n, _w, ['complete', 'error', 'cancelled', 'cancelled between']) for n in ('read', 'write', 'read_at', 'write_at')] +
    [E('rw_bytes_' + n, 'the bytes a %s moves' % n, _q('4 bytes of any value in two pieces, moved in any parts', '6 bytes'), ['complete', 'error']) for n in ('read', 'write')] +
    [E('rw_dropped', 'a step dropped while pending', _q('up to 2 pieces', 'up to 3 pieces'), ['dropped'])])],
    assumptions=['a device reports at most as many bytes as it was given room for, and eventually makes progress or fails'])

_w = _q('up to 2 steps, any values and errors; each ready, immediate, posted or by hand, or dropped; preceded by a nested composition or an asio operation; three await styles', 'up to 3 steps')
SPECS['C23'] = dict(units=[dict(file='composition.cpp', sources='core', entries=
    [E('comp_' + n, 'compositions of signature ' + t, _w, ['value', 'dropped'] + (['error'] if 'ec' in n else [])) for n, t in
      [('none', 'void()'), ('int', 'void(int)'), ('ec_int', 'void(error_code, int)'), ('ec_tok', 'void(error_code, move-only)'), ('big_none', 'void(), with a frame too big for the buffer of the operation'), ('big_ec_int', 'void(error_code, int), with a frame too big for the buffer')]] +
    [E('comp_args', 'values given to the initiating function', 'one to nine arguments by value and by reference', ['end']),
     E('comp_cancel', 'cancellation through every filter', 'two steps, any type of cancellation at each, five filters', ['forwarded', 'filtered', 'afterwards', 'end']),
     E('comp_throws', 'throwing before the first suspension', 'any exception value', ['end']),
     E('comp_tokens', 'awaited in a spawned task', 'up to one step', ['end'])])],
    assumptions=['a composition does not throw once it has been suspended (it gets no exceptions from its awaits, and one it throws itself goes to the event loop, as for any asio handler)'])

_w = 'up to two suspensions, any value or exception, three await styles'
SPECS['C21'] = dict(units=[dict(file='task.cpp', sources='core', entries=
    [E('task_await_' + n, 'tasks awaited after being moved around', _w, ['value', 'error', 'moved from']) for n in ('void', 'int', 'tok')] +
    [E('task_dropped', 'tasks never awaited, abandoned, detached or finished', _w, ['unused', 'abandoned', 'detached', 'finished'])] +
    [E('task_interrupted_' + n, 'tasks that lose a race and are awaited again', _w + '; finishing before or after', ['before', 'value', 'error']) for n in ('tok', 'void')] +
    [E('task_twice', 'a second awaiter', _w, ['end']), E('task_cancel', 'cancelling the awaiter', _w, ['cancelled', 'end'])] +
    [E('spawn_' + n, 'spawned tasks of ' + n, 'up to two suspensions; on the current or another context, by context or executor, from inside or outside of it, plain or bound handlers, with cancellation or abandonment at any suspension', ['value', 'error', 'cancelled', 'abandoned']) for n in ('void', 'int', 'tok')] +
    [E('spawn_born_done', 'completed and moved-from tasks', 'any value', ['end']), E('spawn_awaited', 'spawn awaited with use_op and use_task', 'up to one suspension, same or other context', ['value', 'error']),
     E('spawn_context_gone', 'contexts destroyed with the task on its way', 'up to one suspension, at any point', ['started', 'not started'])])],
    assumptions=['both contexts are run by one thread'])

_al = 'frames of two sizes; allocator in no, the first, a middle or the last argument; up to one suspension; the default resources replaced after creation or not'
_cb = {'quick': 'every frame size from 1 to 400 bytes, a 24 byte allocator', 'thorough': 'every frame size from 1 to 900 bytes, a 24 byte allocator'}
_cb2 = {k: v.replace('24', '72') for k, v in _cb.items()}
def _alloc(flag):
    return dict(file='alloc.cpp', sources='core', defs=[flag], entries=
    [E('frames_' + n, 'frames of %ss go back to the resource they came from' % n, _al, r) for n, r in (('promise', ['finished', 'failed', 'abandoned', 'unused']), ('task', ['finished', 'failed', 'abandoned', 'unused']), ('generator', ['finished', 'failed', 'abandoned', 'unused']), ('detached', ['end', 'failed', 'abandoned']))] +
    [E('exhausted_' + n, 'a resource that fails while a %s is created' % n, _al, ['failed']) for n in ('promise', 'task', 'generator', 'detached')] +
    [E('frames_unbound', 'coroutines created without an executor', 'promise, generator and detached', ['failed']),
     E('frames_spawn', 'the state and completion of a spawned task', 'the default, a polymorphic or an 80 byte allocator; finished, abandoned or dropped with its context', ['finished', 'failed', 'abandoned', 'context gone']),
     E('frames_post', 'post_coroutine frames', 'the same allocators, and of 32 and 48 bytes; called, dropped or dropped with the context', ['dropped', 'called', 'context gone']),
     E('escaped_detached', 'detached coroutines that throw after they were resumed', 'one suspension', ['escaped']), E('escaped_promise', 'dropped promises that throw after they were resumed', 'one suspension', ['escaped']),
     E('coroutine_block_small', 'allocate_coroutine', _cb, ['end']), E('coroutine_block_big', 'allocate_coroutine', _cb2, ['end']),
     E('channel_buffer', 'the buffer of a channel', 'limits up to 3', ['end'])])
SPECS['C16'] = dict(units=[_alloc('-fsized-deallocation'), _alloc('-fno-sized-deallocation')],
    assumptions=['blocks of std::allocator are freed as they were allocated (checked by the engine and by ASAN)'])

NOT_APPLICABLE = {
 'C20': "needs a second OS thread: the executor explores one thread's schedules only, and a cobalt thread's behaviour is the interaction of two io_contexts under the C++ memory model, which is out of reach of this encoding",
 'C24': 'boost.context switches stacks in hand-written assembly, which has no LLVM IR to execute symbolically',
}

_c18 = _q('every sequence of 3 steps, each a reset with no, one or two filters, throw_if_cancelled on or off, a signal from inside, or an await with up to two signals while suspended; any 32 bit masks', 'every sequence of 4 such steps')
_c18n = _q('every sequence of 2 such steps', 'every sequence of 3')
_c18s = _q('every sequence of 5 events: a signal with any mask, an operation completing, the next await resumed', 'every sequence of 6 events')
_c18r = ['reset', 'filter', 'filters', 'thrown', 'awaited', 'signalled']
SPECS['C18'] = dict(units=[dict(file='cancel.cpp', sources='core', entries=[
    E('cancel_promise', 'filters, state, forwarding and throwing in a promise', _c18, _c18r),
    E('cancel_generator', 'the same in a generator', _c18, _c18r),
    E('cancel_detached', 'the same in a detached coroutine given a cancellation source', _c18, _c18r),
    E('cancel_task', 'the same in a task awaited by a promise', 'every sequence of 3 such steps', _c18r),
    E('cancel_nested', 'the same in a promise awaited through two others', _c18n, ['signalled', 'awaited']),
    E('cancel_nested_gen', 'the same in a generator awaited by a promise', _c18n, ['signalled', 'awaited'])] +
    [E('cancel_handles', 'attached promises cancel their coroutine when they go away, detached ones do not', _q('two promises, 3 operations: cancel with any mask, detach, attach, +, move, assign over, destroy; coroutines finishing in between', '4 operations'), ['cancelled', 'destroyed', 'assigned', 'moved']),
     E('cancel_gen_handles', 'generators cancel their coroutine when they go away', _q('two generators, 3 operations', '4 operations'), ['cancelled', 'destroyed', 'assigned', 'moved'])] +
    [E('cancel_gen_yields', 'signals reach a generator exactly while it is awaited', _q('lazy and eager, 2 values, each after an operation or at once; one signal per step', '3 values'), ['forwarded', 'not forwarded'])] +
    [E('stale_' + n, 'signals reach what is awaited now and nothing that finished: ' + t, _c18s, ['late', 'done']) for n, t in [
        ('op', 'an operation'), ('promise', 'a temporary promise'), ('named', 'a named promise'), ('task', 'a task'), ('generator', 'a generator'),
        ('race', 'race'), ('races', 'race over a range'), ('gather', 'gather'), ('gathers', 'gather over a range'), ('join', 'join'), ('joins', 'join over a range'),
        ('with', 'with'), ('group', 'a wait_group')]])],
    assumptions=['one thread; asio io_context as executor', 'an operation does not complete from inside its cancellation handler (what asio requires)'])

_c22 = _q('one of 11 ways to wait on something that completes through either context (operations, combinators, tasks, promises, with), two in sequence for some; five ways to pass an executor; any executor of the thread, changed while waiting', 'two in sequence always')
SPECS['C22'] = dict(units=[dict(file='exec.cpp', sources='core', entries=[
    E('exec_thread', "the thread's executor is the last one set while its context lives", _q('two contexts, 5 steps: set, destroy, recreate', '6 steps'), ['set', 'cleared', 'kept'])] +
    [E('exec_' + n, 'a %s keeps its executor and resumes on it' % n, _c22, ['own', 'other', 'none']) for n in ['promise', 'generator', 'detached']] +
    [E('exec_spawn_' + n, 'a task<%s> runs on the executor it was spawned on, its token on its own' % n, 'up to one await of 11 kinds; by context or executor; token with or without executor; any executor of the thread', ['own', 'other']) for n in ['int', 'void']] +
    [E('exec_handle', 'a posted unique_handle resumes once on the executor of its promise or is destroyed with the context', 'post, dispatch, defer, through either context or without; dropped before, halfway or not', ['resumed', 'dropped', 'other context', 'dropped later']),
     E('exec_handle_void', 'a posted unique_handle<void> resumes once where it was posted or is destroyed', 'post, dispatch, defer through either context; dropped or not', ['resumed', 'dropped']),
     E('exec_owner', 'unique_handle owns its coroutine like a unique_ptr', _q('two coroutines, two handles, 3 operations', '4 operations'), ['resumed away', 'released', 'moved', 'adopted']),
     E('exec_owner_void', 'the same for unique_handle<void>', _q('two coroutines, two handles, 3 operations', '4 operations'), ['resumed away', 'released', 'moved', 'adopted']),
     E('exec_post_coroutine', 'post_coroutine calls its token once on its executor or destroys it', 'three ways to give the executor; resumed, destroyed, context destroyed', ['called', 'destroyed', 'dropped'])] +
    [E('exec_drop_' + n, 'contexts destroyed while a %s waits in them destroy it' % n, 'one of 11 ways to wait, up to 3 polls of either context before', ['dropped', 'done']) for n in ['promise', 'generator', 'detached']])],
    assumptions=['one thread; asio io_context as executor', 'a context is not destroyed while handlers queued elsewhere are bound to it (asio requires it)', 'awaiting a promise or generator of another executor resumes inline, by design; channels resume on their own executor'])
