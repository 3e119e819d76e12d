#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The table below is the authoritative text."""
import json, os, sys
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [{'name': n, 'meaning': m} for n, m in state],
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': list(observe), 'hook_needed': False}})
    assert len(title) <= 80, title

prop('P01', 'No failure inside a transaction is lost',
 'Whenever an internal step or an operating-system call made on behalf of a transaction reports failure, that failure is handed on to the transaction\'s recovery phase (or handled locally and deliberately), and no later step of the same operation runs as if it had succeeded. A success is never reported while a failure is pending, and a failed step that returns no usable result is never used as if it had one.',
 ['fault_sequences', 'inputs'], 'every call site of a step that can fail, every failing outcome of it, every path from there to the end of the operation',
 'Almost no failure path (ENOMEM, EINTR, EMFILE, EIO, lock conflict in the middle of an operation) is taken by the existing tests; each of the several hundred error checks is a separate path.',
 ['src/picotm.c', 'src/picotm_tx.c', 'modules/libc/src/fildes/fildes_tx.c', 'modules/libc/src/fildes/regfile_tx_ops.c', 'modules/tm/src/vmem_tx.c', 'modules/txlib/src/txlib_tx.c'],
 [('error object handed down every call chain', 'include/picotm/picotm-error.h'), ('error checks after each call', 'all modules')],
 [('struct picotm_error', 'outcome of the step')], ['picotm_recover_from_error'])

prop('P02', 'Lock conflicts roll back and retry; they never turn into errors',
 'When an operation cannot obtain a transactional lock because another transaction holds it, the transaction is rolled back and retried; the conflict is never turned into a user-visible error and never ignored. A request for irrevocability restarts the transaction irrevocably, and only genuine errors reach the user\'s recovery code.',
 ['schedules', 'fault_sequences'], 'every lock conflict at every lock acquisition of every operation in every interleaving',
 'Conflicts need a particular interleaving at a particular lock; the tests run mostly single-threaded or with one contended resource, and never contend on most file and socket fields.',
 ['src/picotm.c', 'src/picotm-error.c', 'src/picotm-lib-rwlock.c', 'src/picotm_lock_manager.c', 'modules/libc/src/fildes/regfile_tx_ops.c'],
 [('status to restart-mode mapping', 'src/picotm.c:restart_tx_from_error'), ('conflict kind kept until recovery', 'all callers of the try-lock functions')],
 [('error status', 'conflicting / revocable / error')], ['restart mode of the transaction'])

prop('P03', 'Public operations return only success and otherwise enter recovery',
 'A transactional API function returns to the caller only if its operation succeeded; after any failure it enters the transaction\'s recovery with that failure, and if recovery resumes, it retries the operation with no left-over failure state.',
 ['programs', 'fault_sequences'], 'every exported transactional function, every failing internal operation',
 'Several hundred exported wrappers; the failing path of nearly all of them is untested because it needs an injected failure.',
 ['modules/libc/src/unistd.c', 'modules/libc/src/unistd-tm.c', 'modules/libc/src/stdlib-tm.c', 'modules/tm/src/tm.c', 'modules/txlib/src/txlist.c', 'modules/txlib/src/txqueue.c'],
 [('retry loop around each module call', 'modules/*/src')], [], ['return of every exported *_tx/*_tm function'])

prop('P04', 'Commit runs prepare, apply, finish in order and for everything',
 'A commit first lets every participating module prepare, applies nothing if any preparation fails, then applies every module and every recorded event in the order in which they were recorded, and only afterwards finishes every module and gives up exclusivity. A failure after the point of no return is never rolled back.',
 ['programs', 'fault_sequences', 'histories'], 'every transaction history, any number of modules and events, a failure at any phase',
 'Order bugs show up only with several modules and several dependent events, and failures between phases are not injected by any test.',
 ['src/picotm_tx.c', 'src/picotm.c', 'src/picotm_log.c', 'src/picotm_module.c'],
 [('phase sequence', 'src/picotm_tx.c:picotm_tx_commit'), ('event replay', 'src/picotm_log.c')],
 [('module list', 'participants'), ('event log', 'recorded effects')], ['module callbacks'])

prop('P05', 'Rollback undoes everything, newest effect first, exactly once',
 'A rollback undoes every participating module and then every recorded event exactly once, in the reverse of the order in which they were recorded, finishes every module, and gives up exclusivity before the transaction is restarted. The record is empty when the next attempt begins.',
 ['histories', 'fault_sequences'], 'every history of recorded events and every reason for the rollback',
 'Tests roll back histories with one or two independent events; wrong order or replay needs dependent events.',
 ['src/picotm_tx.c', 'src/picotm.c', 'src/picotm_log.c', 'src/picotm_module.c'],
 [('reverse replay', 'src/picotm_log.c:picotm_log_undo_events'), ('rollback before restart', 'src/picotm.c')],
 [('event log', 'recorded effects')], ['module callbacks'])

prop('P06', 'Irrevocable transactions run alone, and exclusivity is always given up',
 'While an irrevocable transaction runs, no other transaction runs; revocable transactions share. Exclusivity obtained at the start of a transaction is given up exactly once on every way out of it, including failed starts, and exclusivity is never entered twice.',
 ['schedules', 'fault_sequences'], 'all interleavings of starting, restarting, committing and failing transactions',
 'Needs concurrent threads at begin/commit plus failures during start; one leaked exclusive lock hangs the whole process.',
 ['src/picotm_tx.c', 'src/picotm_lock_manager.c', 'src/picotm_os_rwlock.c'],
 [('exclusive process-wide lock', 'src/picotm_tx.c, src/picotm_lock_manager.c')],
 [('transaction mode', 'revocable or irrevocable')], ['begin/commit/rollback'])

prop('P07', 'Each recorded event is replayed by its own handler with its own data',
 'The data recorded for an operation is applied and undone by the handlers that belong to that operation, in the module that recorded it, with the data that was recorded. Every operation that can be recorded has both handlers.',
 ['histories', 'programs'], 'every operation kind of every module and object type, in both directions',
 'The dispatch tables have about sixty entries in both directions for each of five file types; tests undo only a few of them.',
 ['modules/libc/src/fildes/fildes_tx.c', 'modules/libc/src/fildes/fd_tx.c', 'modules/libc/src/fildes/file_tx.c', 'modules/libc/src/cwd/cwd_tx.c', 'modules/libc/src/allocator/allocator_tx.c', 'modules/libc/src/locale/locale_tx.c', 'modules/txlib/src/txlib_event.c'],
 [('apply/undo tables', 'all *_tx_apply_event/undo_event'), ('per-file-type operation tables', 'modules/libc/src/fildes/*_tx_ops.c')],
 [], ['apply/undo of events'])

prop('P08', 'An aborted transaction leaves no trace of its executed effects',
 'Every effect an operation has on process, file-system, heap, locale, floating-point or container state while the transaction is still revocable is recorded together with what is needed to reverse it, and the reversal restores the state that was there before. An effect that was already made when recording fails is reversed on the spot.',
 ['programs', 'fault_sequences', 'histories'], 'every effectful operation, every later abort point',
 'Requires an abort after each operation and a look at external state; the tests check rollback for a handful of operations only.',
 ['modules/libc/src/fildes/fildes_tx.c', 'modules/libc/src/cwd/cwd_tx.c', 'modules/libc/src/allocator/allocator_tx.c', 'modules/libc/src/locale/locale_tx.c', 'modules/libm/src/fpu_tx.c', 'modules/txlib/src/txlist_tx.c'],
 [('execute, record, undo triples', 'modules/libc/src/*/*_tx.c')], [], ['system calls, heap, containers'])

prop('P09', 'Effects that cannot be undone happen only at commit or irrevocably',
 'Operations whose effect cannot be reversed (freeing memory, closing or writing through descriptors, network traffic, file-system changes without compensation, terminating the process) take effect only while the transaction commits or when the transaction is irrevocable.',
 ['programs', 'histories'], 'every operation that has an irreversible effect, every transaction mode',
 'A test that commits sees the same result either way; only an abort at the right moment tells them apart.',
 ['modules/libc/src/fildes/regfile_tx_ops.c', 'modules/libc/src/fildes/socket_tx_ops.c', 'modules/libc/src/fildes/fifo_tx_ops.c', 'modules/libc/src/fildes/chrdev_tx_ops.c', 'modules/libc/src/fildes/fildes_tx.c', 'modules/libc/src/allocator/allocator_tx.c', 'modules/libc/src/stdio.c', 'modules/libc/src/time.c'],
 [('no-undo gate', 'isnoundo checks'), ('write-back buffering', 'modules/libc/src/fildes/*_tx_ops.c'), ('deferred free/close', 'apply handlers')], [], ['system calls'])

prop('P10', 'File operations access shared file state only under the required locks',
 'Every operation on a descriptor, an open file or a file\'s content reads the shared state it depends on only while holding at least a reader lock on that part, and changes it only while holding the writer lock, from before the access until the transaction ends (an irrevocable transaction runs alone and needs none). This holds for every file type and covers the complete byte range involved.',
 ['schedules', 'programs'], 'all interleavings of any two file operations in different transactions',
 'A missing or too weak lock is invisible without a second thread at exactly that point.',
 ['modules/libc/src/fildes/regfile_tx_ops.c', 'modules/libc/src/fildes/chrdev_tx_ops.c', 'modules/libc/src/fildes/fifo_tx_ops.c', 'modules/libc/src/fildes/dir_tx_ops.c', 'modules/libc/src/fildes/socket_tx_ops.c', 'modules/libc/src/fildes/fd_tx.c', 'modules/libc/src/fildes/seekbuf_tx.c', 'modules/libc/src/fildes/fildes_tx.c', 'modules/libc/src/cwd/cwd_tx.c', 'modules/libc/src/locale/locale_tx.c'],
 [('per-field reader/writer locks', 'modules/libc/src/fildes/*_tx.c'), ('region locks', 'modules/libc/src/fildes/seekbuf_tx.c, rwcountermap.c')], [('lock state per field', 'unlocked/reader/writer')], ['system calls on descriptors'])

prop('P11', 'Transactional memory loads are consistent and stores stay private until commit',
 'A load sees either the transaction\'s own stores or memory protected by a reader lock; a store needs the writer lock and reaches memory only at commit, or is written through with the old content saved so that a rollback restores it. Loads, stores, copies and privatization cover exactly the requested bytes.',
 ['schedules', 'inputs', 'histories'], 'all address ranges and alignments, all mixes of loads, stores, copies and privatization, all interleavings',
 'The combination of access kinds per block with alignment, partial blocks and aborts is far too large for the example-based tests.',
 ['modules/tm/src/vmem_tx.c', 'modules/tm/src/page.c', 'modules/tm/src/frame.c', 'modules/tm/src/module.c', 'modules/tm/src/framemap.c'],
 [('page lock before access', 'modules/tm/src/vmem_tx.c'), ('buffer and write-through', 'modules/tm/src/page.c')], [('page flags', 'write-through, discarded'), ('page buffer', 'private content')], ['load_tx/store_tx/privatize_tx'])

prop('P12', 'Container operations are isolated, and their rollback is exact',
 'Queries of a shared list, multiset, queue or stack run under its reader lock and modifications under its writer lock, both held to the end of the transaction; each modification is recorded and its rollback removes, re-inserts or hands back exactly the affected entries: a list, queue or stack gets its old order back, a multiset its old entries (the order among equal keys is not specified). Entries pushed to a queue or a stack stay with the transaction until its commit, which appends them to the shared container in order; until then the transaction sees them behind (queue) or on top of (stack) the shared entries.',
 ['schedules', 'histories'], 'all interleavings of container operations, every abort point',
 'Needs concurrent transactions on one container and aborts after sequences of modifications.',
 ['modules/txlib/src/txlist_tx.c', 'modules/txlib/src/txmultiset_tx.c', 'modules/txlib/src/txqueue_tx.c', 'modules/txlib/src/txstack_tx.c', 'modules/txlib/src/txlib_tx.c', 'modules/txlib/src/txlib_event.c', 'modules/txlib/src/txmultiset_entry.c'],
 [('state lock', 'modules/txlib/src/tx*_state.c'), ('events', 'modules/txlib/src/txlib_event.c')], [], ['container API'])

prop('P13', 'Transactional locks are kept to the end of the transaction, then all released',
 'A reader or writer lock that a transaction has obtained on shared state is not released before the transaction has been applied or undone, and every lock it has obtained is released when it finishes, whether it commits or aborts.',
 ['schedules', 'histories', 'fault_sequences'], 'every lock of every kind of shared state, every way in which a transaction ends',
 'An early release needs an interleaving to matter; a lock that is never released shows only when another transaction later wants that very field.',
 ['src/picotm-lib-rwstate.c', 'modules/tm/src/vmem_tx.c', 'modules/txlib/src/txlist_tx.c', 'modules/libc/src/fildes/regfile_tx.c', 'modules/libc/src/fildes/fd_tx.c', 'modules/libc/src/fildes/fdtab_tx.c', 'modules/libc/src/fildes/seekbuf_tx.c', 'modules/libc/src/cwd/cwd_tx.c', 'modules/libc/src/locale/locale_tx.c'],
 [('finish callbacks', 'modules/*/src/*/module.c'), ('unlocking of all lock states', '*_tx_finish')], [('lock states', 'held locks')], ['finish'])

prop('P14', 'Internal mutexes, spinlocks and rwlocks are balanced on every path',
 'Every internal mutex, spinlock and reader/writer lock taken by the library is released exactly once on every path, including all failure paths, before control returns to the user, and none is released that is not held.',
 ['fault_sequences', 'inputs'], 'every path through every library function that takes an internal lock',
 'Failure paths between lock and unlock are not exercised, and an unbalanced lock may hang only the next caller.',
 ['src/picotm-lib-shared-ref-obj.c', 'src/picotm-lib-shared-treemap.c', 'src/picotm_lock_manager.c', 'src/picotm_lock_owner.c', 'modules/libc/src/fildes/filetab.c', 'modules/libc/src/fildes/filebuftab.c', 'modules/libc/src/fildes/fdtab.c', 'modules/libc/src/signal/sigstate.c', 'modules/libc/src/locale/locale_tx.c'],
 [('lock/unlock pairs', 'all modules')], [], ['function exits'])

prop('P15', 'No two internal locks are ever taken in opposite orders',
 'The order in which the library nests its internal locks is free of cycles, no internal lock is taken again while held, and transactional locks are only ever tried or waited for with a bounded, conflict-detecting wait, never blocked on while an internal spinlock is held.',
 ['schedules'], 'all pairs of nested lock acquisitions reachable from any entry point or callback',
 'A deadlock needs two threads in exactly the opposite windows.',
 ['src/picotm_lock_manager.c', 'src/picotm_lock_owner.c', 'src/picotm-lib-shared-ref-obj.c', 'modules/libc/src/fildes/filetab.c', 'modules/libc/src/fildes/file.c', 'modules/libc/src/fildes/fd.c', 'modules/libc/src/signal/sigstate.c'],
 [('nesting of internal locks', 'all modules')], [], ['lock acquisitions'])

prop('P16', 'References to shared objects are balanced',
 'Every reference that an operation takes on a shared object is either stored in an owner that gives it back later or given back before the operation fails, and none is given back that was not taken; the object is set up by the first and torn down by the last reference only.',
 ['fault_sequences', 'histories'], 'every path that acquires references, with a failure after any step',
 'The failure paths are untested, and a lost or surplus reference shows only much later as a leak or a use of freed state.',
 ['src/picotm-lib-shared-ref-obj.c', 'modules/libc/src/fildes/filetab.c', 'modules/libc/src/fildes/filebuftab.c', 'modules/libc/src/fildes/fildes_tx.c', 'modules/libc/src/fildes/file_tx.c', 'modules/libc/src/fildes/fd_tx.c', 'modules/libc/src/fildes/regfile_tx.c', 'modules/libc/src/locale/locale_tx.c'],
 [('ref/unref pairs', 'modules/libc/src/fildes')], [], ['reference counts'])

prop('P17', 'Failed operations leak neither memory nor file descriptors',
 'Memory, descriptors and duplicated strings that an operation acquires for itself are owned by exactly one place at any time: on every failing path they are released once, on success they are handed to the caller or recorded for later release, and nothing is released twice or used after release.',
 ['fault_sequences'], 'every acquisition of memory or a descriptor, a failure at any later step of the operation',
 'Needs an injected failure at each step; valgrind runs of the tests only see success paths.',
 ['modules/libc/src/fildes/fildes_tx.c', 'modules/libc/src/allocator/allocator_tx.c', 'modules/libc/src/cwd/cwd_tx.c', 'modules/libc/src/locale/locale_tx.c', 'modules/txlib/src/txlib_tx.c', 'src/table.c', 'src/picotm-lib-treemap.c', 'src/picotm-lib-shared-treemap.c'],
 [('error labels that release', 'all modules')], [], ['malloc/free, open/close'])

prop('P18', 'Modules register completely and tear down symmetrically',
 'Each module that records events can also apply and undo them, each module that takes locks or keeps a record releases them when a transaction finishes, and everything set up when a module is first used by a thread or process is torn down exactly once when the thread or process lets go of it, also when set-up fails half-way.',
 ['programs', 'fault_sequences'], 'every module, success and failure of every set-up step, thread exit',
 'Thread exit and failing set-up are hardly tested; a missing callback silently drops effects.',
 ['src/picotm_module.c', 'src/picotm_tx.c', 'include/picotm/picotm-lib-state.h', 'include/picotm/picotm-lib-shared-state.h', 'include/picotm/picotm-lib-global-state.h', 'include/picotm/picotm-lib-thread-state.h', 'modules/libc/src/fildes/module.c', 'modules/tm/src/module.c', 'modules/txlib/src/txlib_module.c'],
 [('module operation tables', 'modules/*/src/**/module.c')], [], ['register/release'])

prop('P19', 'Reader/writer locks exclude writers and publish what they protect',
 'A reader/writer lock is never held by a writer together with anyone else, never loses or invents a reader, and always refuses instead of overflowing its counter; a transaction takes, upgrades and gives back each such lock exactly once and knows its state even if an attempt fails. Acquiring a lock, spinlock, reference or published pointer makes everything visible that was written before the matching release, and first and last references are recognised as such.',
 ['schedules'], 'all interleavings of lock operations on all memory models the C11 atomics admit',
 'x86 testing hides wrong memory orders, and counter overflow needs more readers than any test has.',
 ['src/picotm-lib-rwlock.c', 'src/picotm-lib-rwstate.c', 'src/picotm-lib-spinlock.c', 'include/picotm/picotm-lib-spinlock.h', 'src/picotm-lib-shared-ref-obj.c', 'src/picotm-lib-shared-treemap.c', 'modules/ptrdata/src/ptrdata.c'],
 [('packed lock word', 'src/picotm-lib-rwlock.c'), ('lock state machine', 'src/picotm-lib-rwstate.c')], [('lock word', 'reader count or writer mark, first waiter')], ['try_rdlock/try_wrlock/unlock'])

prop('P20', 'Waiting transactions are woken and leave no stale queue entries',
 'A transaction that waits for a lock waits only while queued and for a bounded time, is removed from the queue on every way out of the wait, and an unlock of a lock with waiters wakes the right one. The wait queue is read and changed only under its protection.',
 ['schedules'], 'all interleavings of waiting, time-outs, wake-ups and lock releases',
 'Lost wake-ups and stale queue entries need exact interleavings of three threads.',
 ['src/picotm_lock_manager.c', 'src/picotm_lock_owner.c', 'src/picotm-lib-rwlock.c', 'src/picotm_os_cond.c', 'src/picotm_os_timespec.c'],
 [('waiter list', 'src/picotm_lock_manager.c')], [('waiter index in the lock word', 'head of the wait queue')], ['wait/wake_up'])

prop('P21', 'Casts return the same value or report a range error',
 'A transactional cast between integer types returns the mathematically identical value if the destination type can represent it, and reports a range error otherwise; it never does so for a representable value.',
 ['inputs'], 'all values of all pairs of integer types',
 'The tests try boundary values of some pairs; 64-bit ranges of over a hundred pairs cannot be enumerated.',
 ['modules/cast/include/picotm/picotm-cast.h', 'modules/cast/include/picotm/picotm-cast-ctypes.h', 'modules/cast/src/cast.c'],
 [('range checks', 'modules/cast/include/picotm/picotm-cast.h')], [], ['cast_*_to_*_tx'])

prop('P22', 'Integer arithmetic is exact or reports a range error',
 'A transactional addition, subtraction, multiplication or division of integers returns the mathematically exact result if the type can represent it and reports an error otherwise; it never wraps around and never reports an error for a representable result.',
 ['inputs'], 'all pairs of operands of all integer types',
 'The tests try a few operand pairs per type; the 2^128 operand pairs of the 64-bit types cannot be tested.',
 ['modules/arithmetic/include/picotm/picotm-arithmetic.h', 'modules/arithmetic/include/picotm/picotm-arithmetic-ctypes.h', 'modules/arithmetic/src/arithmetic.c'],
 [('overflow guards', 'modules/arithmetic/include/picotm/picotm-arithmetic.h')], [], ['add_*_tx', 'sub_*_tx', 'mul_*_tx', 'div_*_tx'])

prop('P23', 'Math functions detect their own floating-point errors, and only those',
 'Each transactional math function computes its namesake on its own arguments. Each one for which the C standard defines errors clears earlier error indications after saving them for rollback, and afterwards reports an error exactly when the computation raised one. A rollback restores the saved floating-point state.',
 ['inputs', 'histories'], 'all math functions, all previous floating-point status',
 'About two hundred functions share one pattern; tests call each once with benign arguments and a clean status.',
 ['modules/libm/src/math.c', 'modules/libm/src/complex.c', 'modules/libm/src/math-tm.c', 'modules/libm/src/matherr.c', 'modules/libm/src/matherr.h', 'modules/libm/src/fpu_tx.c'],
 [('save-and-clear before, test after', 'modules/libm/src/matherr.c')], [], ['*_tx math functions'])

prop('P24', 'Time arithmetic yields exact, normalized results',
 'Sums and differences of normalized time values are exact and have a nanosecond part of at least zero and less than one second; comparing two time values tells their order. The time-out of a bounded wait lies after the time it was computed at, by one second at most, and is measured on the clock that was read. A sleep that a signal interrupts continues for the time that remained.',
 ['inputs'], 'all pairs of normalized time values',
 'The tests do not cover borrow and carry for the time helper used by bounded waits.',
 ['src/picotm_os_timespec.c', 'src/picotm_os_timespec.h', 'src/picotm_os_cond.c', 'src/picotm_lock_manager.c'],
 [('carry and borrow', 'src/picotm_os_timespec.c')], [], ['timeouts of bounded waits'])

prop('P25', 'Rollback restores errno, and operations that may change it save it first',
 'Before a transactional function runs anything that can change errno, the value errno had when the transaction first touched it is saved, once per transaction; a rollback restores exactly that value, and the next transaction saves afresh.',
 ['programs', 'histories'], 'every exported function that can change errno, every abort',
 'errno after an abort is checked for hardly any function.',
 ['modules/libc/src/error/error_tx.c', 'modules/libc/src/error/module.c', 'modules/libc/src/unistd.c', 'modules/libc/src/unistd-tm.c', 'modules/libc/src/stdlib-tm.c', 'modules/libc/src/string-tm.c'],
 [('save before first change', 'modules/libc/src/error')], [('saved errno flag', 'value saved in this transaction')], ['errno after restart'])

prop('P26', 'Memory arguments are brought under transactional control before use',
 'A transactional function privatizes every memory argument that its implementation reads or writes, before doing so, for reading if it is read and for writing if it is written, and for its full extent.',
 ['programs', 'schedules'], 'every exported function with pointer arguments',
 'Without a concurrent transaction on the same buffer and without an abort, a missing or wrong privatization has no effect in a test.',
 ['modules/libc/src/string.c', 'modules/libc/src/stdlib.c', 'modules/libc/src/stdio.c', 'modules/libc/src/unistd.c', 'modules/libc/src/fcntl.c', 'modules/libc/src/sys_stat.c', 'modules/libc/src/sys_socket.c', 'modules/libc/src/locale.c', 'modules/libc/src/time.c', 'modules/libm/src/math.c'],
 [('privatize before forwarding', 'modules/libc/src/*.c')], [], ['privatize_tx'])

prop('P27', 'Transactional functions do what their namesakes do, argument for argument',
 'Each exported transactional function performs the operation it is named after, passing every argument through to its own counterpart and returning that operation\'s result, through all layers down to the C library or system call.',
 ['programs', 'inputs'], 'every exported function and every forwarding layer below it',
 'Swapped or dropped arguments of equal type (lengths, offsets, flags, descriptors) often go unnoticed in simple test data.',
 ['modules/libc/src/string-tm.c', 'modules/libc/src/string.c', 'modules/libc/src/unistd-tm.c', 'modules/libc/src/sys_socket-tm.c', 'modules/libc/src/fildes/module.c', 'modules/libc/src/fildes/fildes_tx.c', 'modules/libc/src/fildes/fd_tx.c', 'modules/libc/src/fildes/file_tx.c', 'modules/txlib/src/txlist.c'],
 [('forwarding layers', 'modules/libc/src')], [], ['system calls and C library calls'])

prop('P28', 'Signals are recovered only inside transactions and handlers are restored',
 'A caught signal enters transaction recovery only while a transaction runs on that thread and has asked for that signal; otherwise the application\'s own handler runs. Releasing a signal restores the handler that was installed before, and signal numbers out of range are rejected before use.',
 ['schedules', 'histories', 'inputs'], 'all signal numbers, all points at which a signal can arrive',
 'Asynchronous arrival points and out-of-range numbers are not tested.',
 ['modules/libc/src/signal/signal_tx.c', 'modules/libc/src/signal/sigstate.c', 'modules/libc/src/signal/module.c'],
 [('per-thread signal state', 'modules/libc/src/signal/signal_tx.c'), ('process handler table', 'modules/libc/src/signal/sigstate.c')], [], ['signal handlers'])

prop('P29', 'Buffered file writes and reads reach exactly the intended bytes',
 'Data written in a revocable transaction is buffered and written at commit to exactly the offset and length requested, in order, and is visible to the transaction\'s own later reads there. The file position visible after commit is the one the transaction computed, based on the bytes really transferred.',
 ['inputs', 'histories'], 'all sequences of positioned and sequential reads, writes and seeks in a transaction',
 'Overlapping writes, short transfers and mixtures with seeks in one transaction are not tested.',
 ['modules/libc/src/fildes/regfile_tx_ops.c', 'modules/libc/src/fildes/chrdev_tx_ops.c', 'modules/libc/src/fildes/fifo_tx_ops.c', 'modules/libc/src/fildes/socket_tx_ops.c', 'modules/libc/src/fildes/seekbuf_tx.c', 'modules/libc/src/fildes/iooptab.c', 'modules/libc/src/fildes/ioop.c'],
 [('write and read sets', 'modules/libc/src/fildes/iooptab.c')], [('write set', 'pending writes')], ['pwrite/lseek at commit'])

prop('P30', 'Tables and indices stay within bounds',
 'Every index into a fixed or growing internal table is within the table\'s current size whenever it is used, growing a table allocates enough for the requested element, and sizes computed from user arguments do not wrap around.',
 ['inputs', 'histories'], 'all table sizes and user-supplied indices, counts and sizes',
 'The boundaries (1024th lock owner, last module slot, table growth to a large index, huge element counts) are not reached by tests.',
 ['src/table.c', 'src/picotm_tx.c', 'src/picotm_lock_manager.c', 'src/picotm_log.c', 'modules/libc/src/fildes/fdtab.c', 'modules/libc/src/fildes/iooptab.c', 'modules/libc/src/fildes/regiontab.c', 'modules/libc/src/fildes/fildes_log.c', 'modules/libc/src/stdlib.c', 'modules/libc/src/string-tm.c'],
 [('growth and bounds checks', 'src/table.c and users')], [], ['memory accesses'])

with open(OUT, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
