"""The property texts.  gen.py turns them into properties.jsonl and MANIFEST.json."""
PROPS = []
NA = []
BASE_NOTE = ' Assumes: the clang -O0 IR is the program, distinct access paths do not alias unless a branch equates them, no integer wrap-around unless stated, a failed assert ends the process.'
def P(id, title, statement, over, quant, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note + BASE_NOTE))
def N(id, title, statement, over, quant, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech='', note=''))
    NA.append((id, reason))
TYPE = 'path-sensitive abstract interpretation of LLVM IR (typestate / lock-set / state-transition contracts)'

P('P01', 'Fiber mutex: bounded holders, hand-off to one waiter, no lost wake-up',
  'A fiber mutex (created with any concurrency limit) is held by at most its limit of fibers or callbacks at a time: lock, try-lock and callback-lock take it at once only below the limit, otherwise a try fails without effect and the others queue behind it. Unlock hands the mutex to exactly one queued waiter if there is one (a waiting fiber is resumed, a waiting callback runs with its own data, argument and status 0) and frees a slot only when nobody waits; the holder/waiter count is exact on every path. All state tests and changes of one operation happen in one critical section of the internal lock, which is never held while another fiber or callback runs.',
  ['schedules', 'histories'], 'every interleaving of lock / try-lock / callback-lock / unlock by any number of fibers on any number of event-loop threads',
  'the tests never create a fiber mutex; races between a waiter queueing and an unlock on another thread need a specific interleaving',
  ['src/kfiber_sync.c', 'include/kfiber_sync.h'], [('mutex state machine', 'kfiber_mutex_lock, kfiber_mutex_lock2, kfiber_mutex_try_lock, kfiber_mutex_unlock'), ('waiter queue', 'struct _kfiber_mutex: worker, count, limit, waiter, lock')],
  TYPE, 'Decides the per-operation state transitions at the release of the internal lock on every path (which imply exclusion and no lost wake-up, since all accesses are shown to be under that lock).')
P('P02', 'Fiber read/write lock: exclusion, waiter hand-off, no lost wake-up',
  'A fiber read/write lock never admits a writer together with any other holder: read-lock succeeds at once only without a writer, write-lock only when free, and otherwise the fiber queues and sleeps. A write unlock wakes all queued readers (counting exactly those as holders) or hands over to one queued writer, the last read unlock hands over to one queued writer, and the lock becomes free only when nobody is queued. State is tested and changed in one critical section of the internal lock, which is never held while a fiber is woken or switched.',
  ['schedules', 'histories'], 'every interleaving of read/write lock and unlock by any number of fibers on any number of event-loop threads',
  'the tests never use the lock; exclusion and lost wake-ups depend on the interleaving of several threads',
  ['src/kfiber_sync.c', 'include/kfiber_sync.h'], [('rwlock state machine', 'kfiber_rwlock_rlock, kfiber_rwlock_wlock, kfiber_rwlock_runlock, kfiber_rwlock_wunlock')],
  TYPE, 'Decides the state transition of each operation on every path plus the lock discipline.')
P('P03', 'Fiber condition: no lost notification, each waiter released exactly once',
  'Notifying a fiber condition (fiber-local, shared between threads, or awaited by a plain thread) releases exactly one waiter when it is auto-reset, with one notification remembered per notify that finds nobody waiting, and releases every waiter and stays signalled when it is manual-reset. A wait on a signalled condition passes at once (consuming one signal if auto-reset), a try-wait never blocks and tells the truth, a waiting callback runs with its own data and argument, and a released waiter receives the notifier\'s result. On the shared kind all this happens under the internal lock, which is not held while fibers are woken.',
  ['schedules', 'histories'], 'every interleaving of wait, try-wait, callback-wait and notify, for each kind of condition and reset mode',
  'no test drives a condition with several waiters or threads; a lost or doubled wake-up needs a particular order',
  ['src/kfiber_sync.c', 'include/kfiber_sync.h'], [('operation tables', 'kfiber_cond_init, kfiber_cond_init_ts, kfiber_cond_init_sync'), ('wait/notify', 'functions installed in kfiber_cond_function')],
  TYPE, 'Operation tables are resolved from the constructors; each operation\'s transition is decided on every path.')
P('P04', 'Thread event: set/wait/reset never loses or duplicates a signal',
  'A thread waiting on an event returns only after it observed the event set while holding the event\'s lock, re-checking after every wake-up; an auto-reset event is consumed by that one waiter and a manual-reset event stays set until it is reset. Setting the event marks it and wakes a waiter (every waiter if manual-reset) before the event\'s lock is released, so the woken thread may destroy the event at once; a try never blocks, and reports success exactly when the event was set. Creation, reset and destruction initialise, clear and free it exactly once.',
  ['schedules'], 'every interleaving of set, wait, try-wait and reset by any number of threads, including spurious wake-ups',
  'tests cannot produce spurious wake-ups or the set-before-wait race on demand',
  ['include/ksync.h'], [('event', 'kcond_wait, kcond_try_wait, kcond_notice, kcond_reset, kcond_init, kcond_destroy')],
  TYPE, 'Decides observation-before-return, reset and wake-up on every path, treating the wait primitive as changing all shared memory.')
P('P05', 'Spin read/write locks and atomic helpers are atomic and exclusive',
  'Every atomic helper performs exactly one atomic access of its own width and returns the documented (old or new) value; a compare-and-swap succeeds exactly when the expected value was found. A reader enters a spin lock only by one atomic step from a state without writer, a writer only by one atomic step from the free state, and each unlock undoes its own step in one atomic operation. In the writer-preferring lock an ordinary reader enters only after seeing no announced writer, a high-priority reader does not wait for announced writers, and a writer announces itself before taking the lock and withdraws the announcement once, after releasing it.',
  ['schedules'], 'every interleaving of readers and writers on any number of threads',
  'atomicity violations need instruction-level interleavings no test can force',
  ['include/katom.h', 'include/ksync.h'], [('atomics', 'katom_*'), ('spin locks', 'krw_mutex_*, kwr_mutex_*')],
  TYPE, 'All loads of the lock word are treated as arbitrary (other threads run at any point); width, operand and order of each atomic access are checked on every path.')
P('P06', 'Thread pool runs each work item exactly once and accounts threads exactly',
  'Work handed to the thread pool runs exactly once, with its own argument, on a new or a re-used idle thread; if no thread can be created the call reports failure, the work never runs and nothing stays counted or allocated. The busy and idle counts always match the threads, an idle thread is woken only after its command and work are published and it was taken off the idle list, and it offers itself as idle only when it can no longer miss a wake-up. A retired idle thread runs nothing more, frees its descriptor exactly once and leaves nothing of a thread behind, waking one never ends the process, and shrinking the pool keeps the requested number of idle threads.',
  ['schedules', 'fault_sequences'], 'every interleaving of start, completion and shrink calls, and every thread-creation or allocation failure',
  'tests cannot force thread creation to fail nor the window between going idle and being woken',
  ['src/kthread.c', 'include/kthread.h'], [('pool', 'kthread_pool_start, kthread_flush, kthread_close_all_free, kthread_get_count'), ('pool thread', 'the entry given to pthread_create')],
  TYPE, 'Pool variables are discovered from the public accessors; publication order, counting and ownership are decided on every path and loop body.')
P('P07', 'Bounded worker queue: each request runs once, in order, within limits',
  'A request accepted by a worker queue is queued exactly once (behind all others, or in front if tried with high priority), its callback runs exactly once with its argument and outside the queue lock, and its memory is freed once afterwards. A tried request is refused without effect exactly when more requests wait than the limit; a started one that exceeds the limit makes the caller wait until a worker takes it. Worker threads are started below the thread limit only, each counted and holding a reference until it leaves with the queue empty, and a thread that cannot be started leaves no count behind; the queue is freed with its last reference.',
  ['schedules', 'fault_sequences'], 'every interleaving of producers and worker threads and every failure to start a thread',
  'tests do not use the queue directly, cannot fail thread creation, and cannot schedule a producer against an exiting worker',
  ['src/kasync_worker.c', 'include/kasync_worker.h'], [('queue', 'kasync_worker_start, kasync_worker_try_start, kasync_worker_release'), ('worker', 'the entry given to the thread pool')],
  TYPE, 'Queue transitions are decided at the release of the queue lock on every path; the caller is assumed to hold its own reference during the call.')
P('P08', 'Fiber channel: each value goes to exactly one receiver; closing releases all',
  'Sending on a channel hands the value to exactly one waiting receiver (which is resumed once, with status 0) or makes the sender wait with its value; receiving takes the value of exactly one waiting sender (resuming it once, or handing it to the caller to be acknowledged) or waits and then returns the value and status its waker left. Senders and receivers never wait at the same time and no waiter is lost. Closing refuses later sends and waits with -1 and releases every waiter exactly once with -1 and no value; a channel is freed with its last reference only.',
  ['histories', 'schedules'], 'every sequence of send, receive, acknowledge and close by any number of fibers of one event loop',
  'no test uses a channel; a stale side marker or a lost waiter needs several fibers in a particular order',
  ['src/kfiber_sync.c', 'include/kfiber_internal.h'], [('channel state machine', 'kfiber_chan_send, kfiber_chan_recv, kfiber_chan_close'), ('references', 'kfiber_chan_add_ref, kfiber_chan_release')],
  TYPE, 'Decides each operation\'s transition at the first point where another fiber can run, on every path; the channel belongs to one event loop (its documented contract).')
P('P09', 'Fiber wait and wake-up: one result, right thread, correct switch',
  'A fiber that waits for an asynchronous operation is resumed exactly once per completion and its wait returns exactly the result given by the waker; a fiber whose operation completed at once does not switch at all. Waking a fiber from the thread of its own event loop switches to it directly, from any other thread it posts exactly one notice with the fiber\'s object and result to the fiber\'s loop; a waiting callback is posted once to its own loop with its own data and its record freed. Each switch saves the context that is left, enters the saved context of the target and makes the target the loop\'s current fiber, and a waiting fiber always returns to the fiber that resumed it; code can tell whether it runs in a fiber or in the loop itself.',
  ['schedules', 'histories'], 'every order of waiting and waking over any number of fibers and event-loop threads, in the debug and the release variants of the wait functions',
  'tests wake fibers only from a few fixed places and threads and never compile the release variants separately',
  ['src/kfiber.c', 'include/kfiber.h', 'include/kfiber_internal.h'], [('switch', '__kfiber_switch and the fiber entry'), ('wait', '__kfiber_wait, kfiber_wait_result, kfiber_wait'), ('wake', 'kfiber_wakeup, kfiber_wakeup2, kfiber_wakeup_ts, _kfiber_wakeup_waiter')],
  TYPE, 'The assembly context switch itself is a trusted primitive; wait/wake functions are analysed for NDEBUG and debug builds.')
P('P10', 'Fiber life cycle: start once, join returns its result, freed exactly once',
  'A created fiber runs its start function exactly once with its argument and start length, on the requested event loop (the caller\'s by default), on a stack of at least the whole pages asked for that lies inside its own memory block; a failed creation starts and counts nothing. When it ends its result is stored and its joiners are notified exactly once, after it has left its own stack; a handle returned to the creator keeps the fiber alive with its own reference and a completion condition suited to the threads involved, stored before the fiber can run. Join waits for the end and yields the fiber\'s own result, try-join never waits and reports an unfinished fiber leaving the handle valid, a join callback is registered once, and the fiber (with its completion condition) is freed and uncounted exactly when the last reference goes.',
  ['schedules', 'histories', 'fault_sequences'], 'every order of fiber end, join, try-join and handle release, on one or several threads, and failed allocation',
  'tests join fibers in one order only; a use-after-free or lost joiner depends on who drops the last reference and when',
  ['src/kfiber.c', 'include/kfiber.h'], [('creation', 'kfiber_new, kfiber_create, kfiber_create2, kfiber_create_sync, kfiber_start'), ('end', 'fiber entry and exit callback'), ('join', 'kfiber_join, kfiber_try_join, kfiber_join2, kfiber_ref_self')],
  TYPE, 'Reference and ownership typestate on every path of creation, end and join; debug and release builds.')
P('P11', 'Socket I/O: each started operation completes exactly once with its own data',
  'A read, write or file-send started on a socket (plain or TLS) calls its own callback exactly once with the socket\'s data, its own argument and the number of bytes transferred (or a negative result on failure), or is armed again with the same callback, buffers and argument when the transfer would block; would-block is never reported as an error or as the end of the data, and an error is never waited for. The operation is no longer marked pending when its callback runs, so the callback may start the next one, and nothing of the socket is touched after the callback. Data already decrypted by TLS is delivered without waiting for the socket, and a callback scheduled for the next turn is queued exactly once.',
  ['inputs', 'fault_sequences', 'histories'], 'every sequence of short, blocking, failing and successful transfers on any socket, TLS or not',
  'tests see only the transfers loopback happens to produce; callbacks that re-enter or free the socket at the wrong moment need specific timing',
  ['src/kselectable.c', 'include/kselectable.h'], [('completion', 'selectable_read_event, selectable_write_event'), ('start', 'selectable_read, selectable_write, selectable_sendfile, selectable_next_read, selectable_next_write')],
  TYPE, 'The re-arm goes through the event-loop back end (P12); the TLS transfer primitives are treated as opaque.')
P('P12', 'epoll back end: operations are registered, marked and dispatched correctly',
  'Starting a read, write, file-send, connect or accept on the event loop records its callback, buffers and argument and either serves a socket already known to be ready (at once or queued exactly once) or registers it with the kernel for that readiness (added once, changed afterwards, keeping what was requested before) in a list that can time out; a refused registration leaves nothing pending and is reported once. A hang-up watch never replaces a pending operation and ends when another operation starts, and removing a socket unregisters it once and leaves no list, registration or readiness mark behind. Every event the kernel reports is visited, marks the socket ready, and queues it exactly once if (and only if) a matching operation is pending.',
  ['histories', 'fault_sequences', 'schedules'], 'every history of operations on sockets in any state, every set of kernel events, and every registration failure',
  'a lost wake-up needs an event arriving while an operation is being armed; tests cannot make registration fail',
  ['src/kepoll_selector.c', 'include/kselector.h'], [('operation table', 'kepoll_module_init'), ('registration', 'functions installed in kgl_selector_module'), ('dispatch', 'the select operation')],
  TYPE, 'The kernel interface (epoll_ctl/epoll_wait) is modelled as returning any result.')
P('P13', 'Event loop: idle sockets time out, ready elements are served exactly once',
  'A socket whose operation stays pending for the whole timeout of its list (and no earlier) is either told through its time-out callback, given one of its remaining extra periods, or removed from its list and shut down once so that the operation completes; a socket that keeps waiting restarts its time. Every ready element leaves the ready list before it is served: a pending ready read or write is served exactly once, a finished fiber gets its own callback once with its argument and result, and only an operation still pending goes back to a timed list. A socket or fiber is in at most one list of its loop and the loop\'s element count matches on every path; each tick registered on a loop is called there once per turn with its own argument, may close itself, is freed once when closed, and can shorten the next wait but never lengthen it.',
  ['histories', 'inputs'], 'every set of waiting sockets, ready sockets and fibers, timeouts and clock values',
  'tests never let a socket idle into its timeout, and re-queueing from within a callback needs particular timing',
  ['src/kselector.c', 'include/kselector.h'], [('turn', 'kselector_check_timeout'), ('lists', 'kselector_add_list, kselector_remove_list, kselector_add_fiber_ready')],
  TYPE, 'Decided per loop iteration of the turn; list operations are recognised by their effect on the links.')
P('P14', 'Timers run once, never early, in deadline order, on their own loop',
  'A timer carries its own callback, data and argument and is due the requested time after now; it is put once into the ordered timer set of its loop, directly if created on the loop\'s own thread and through exactly one posted notice otherwise. Timers with equal deadlines share a slot without loss, the earliest deadline is always the one examined first, and a timer is taken out, run exactly once and freed once afterwards only when its deadline has passed, while other timers stay. The loop that keeps the clock, and no other, reads it after every wait; when it jumps backwards every timer and every idle socket of every loop is shifted exactly once by the jump.',
  ['histories', 'inputs', 'schedules'], 'every set of deadlines, equal or not, inserted in any order, timers created by other threads or by running timers, and clock jumps',
  'tests use a few distinct timers; tree order, equal deadlines and clock jumps need specific values',
  ['src/kselector.c', 'src/kselector_manager.c', 'src/ktimer.c'], [('creation', 'kselector_add_timer, kselector_add_timer_ts, selector_manager_add_timer'), ('insertion', 'kselector_add_block_queue'), ('expiry', 'kselector_check_timeout'), ('clock', 'kselector_update_time, kselector_adjust_time, selector_manager_adjust_time')],
  TYPE, 'The red-black tree primitives (link, rebalance, erase, first, next) are trusted to keep the in-order sequence.')
P('P15', 'Cross-thread notices: each posted notice runs exactly once on its loop',
  'A notice posted to an event loop from any thread is queued exactly once, complete with its callback, data, argument and result, under the queue\'s lock, and the loop is woken after it was queued; the poster touches it no more. The loop runs each posted notice exactly once with exactly those values and frees it once afterwards, takes as many notices as were posted, and does not hold the queue\'s lock while one runs. The loop\'s wake-up descriptor is created counting from zero, stays registered and always has its handler pending.',
  ['schedules'], 'every interleaving of posts from any number of threads with the loop draining its queue',
  'a lost or doubled notice needs a post to race with the drain at instruction level',
  ['src/kepoll_selector.c', 'include/kselector.h'], [('post', 'the next operation of the epoll back end'), ('drain', 'the notice handler installed at loop creation')],
  TYPE, 'Order among pending notices is not promised (they are taken newest first).')
P('P16', 'Fiber socket calls wait for their own operation; full transfers lose no byte',
  'A fiber calling connect, accept, read, write, TLS handshake or shutdown on a connection starts exactly one operation with exactly the caller\'s buffers, is suspended only until that operation completes, and gets that operation\'s own result; if the operation cannot be started it fails without waiting, an accepted socket becomes a connection on the accepting fiber\'s loop, and accepting succeeds exactly if it gives one. The transfer-everything calls always continue at the first byte not yet transferred, stop at the first transfer that makes no progress, and report truthfully whether all was transferred and what remains (the gathered write: how much was sent, with the buffer list advanced by exactly that). Closing frees the connection exactly once, and it and shutting down (the socket, both ways, exactly once) first close an established TLS session that is still sound and not yet closed.',
  ['inputs', 'schedules', 'histories'], 'every sequence of partial transfers, completions at once or later, failures at each step, any number and length of buffers',
  'loopback tests transfer small messages in one piece; partial transfers and completions at each point need a peer and kernel that cooperate',
  ['src/kfiber.c', 'include/kfiber.h', 'include/kbuf.h'], [('socket calls', 'kfiber_net_connect, kfiber_net_accept, kfiber_net_readv, kfiber_net_writev, kfiber_net_close, kfiber_ssl_handshake, kfiber_ssl_shutdown'), ('full transfers', 'kfiber_net_read_full, kfiber_net_write_full, kfiber_net_writev_full, kgl_iovec_seek')],
  TYPE, 'The operations themselves are P11-P13; lengths and counts are assumed to fit their integer types.')
P('P17', 'Fiber file I/O: right bytes, exact position, each completion delivered once',
  'A fiber\'s file read, write or send-file issues exactly one kernel request for that file with the caller\'s buffer and length at the file\'s current position, waits for it exactly if it could be started, returns its own result, and moves the position by exactly what was transferred (not at all on failure or end of file). A direct-I/O read starts at the position before it that is aligned for every mounted device, and reports only the bytes asked for, end of file as 0 and errors as negative; every request the kernel finished is completed exactly once on the file\'s own loop. Opening, binding and closing neither leak nor double-close the handle, seek and tell are exact, the transfer-everything calls lose no byte, and the calls for files of another loop run the operation on that loop and return its result.',
  ['inputs', 'histories'], 'every order of completions, partial transfers, failures, file positions and lengths, direct or ordinary files',
  'the file test reads and writes one small file; direct I/O, partial results, bursts of completions and other loops\' files are never exercised',
  ['src/kfiber.c', 'src/kepoll_selector.c', 'include/kasync_file.h', 'include/kfiber.h', 'src/kselectable.c'], [('requests', 'the aio_open, aio_read and aio_write operations of the epoll back end'), ('completion', 'the request-done handler installed at loop creation, kasync_file_adjust_result'), ('fiber calls', 'kfiber_file_*, kfiber_sendfile, kfiber_file_safe_*')],
  TYPE, 'Kernel asynchronous I/O itself (io_submit / io_getevents) is trusted.')
P('P18', 'Sleeping and thread calls of a fiber: run once, resumed once with the result',
  'A sleeping fiber sets exactly one timer for the requested time on its own loop and is resumed by it; if the timer is refused it does not wait. A thread call runs the given function exactly once on a pool thread with the given arguments while only the calling fiber waits, and then resumes that fiber once, on its own loop, with the function\'s return value stored for the caller; a call the pool refuses fails at once without running or waiting.',
  ['schedules', 'histories'], 'every interleaving of the pool thread, the calling fiber and the loop, with or without a result wanted, pool full or not',
  'a lost or doubled resume needs the pool thread and the loop to race',
  ['src/kfiber.c'], [('sleep', 'kfiber_msleep'), ('thread call', 'kfiber_thread_call')],
  TYPE, 'Timers are P14, the thread pool is P06, resuming from another thread is P09/P15.')
P('P19', 'Servers and listeners: freed with the last reference, sockets closed once',
  'A server counts one reference for its owner, one per listener and one per accepted connection; it is freed exactly when the last one is released, running its owner\'s clean-up with its data, releasing its TLS context and destroying its lock once. A listener owns its socket and a reference to the server\'s TLS context: destroying it closes the socket once, takes it off the server\'s list under the list\'s lock and gives both references back before it is freed. A server bound to a name, or opened on a given socket, keeps that address and whether it is a local path, and fails without one; opening succeeds exactly if at least one listener could be opened (for a fiber: exactly if it gets a listener); each is bound to a loop, registered with the caller\'s callback and asked to accept on its own loop, and closing clears the started state and shuts every listener down.',
  ['histories', 'schedules', 'fault_sequences'], 'every order of opening, closing, accepting and releasing, any number of loops, every failure to open a listener',
  'tests open one server and never release it under load, let a listener fail or close it while others accept',
  ['src/kserver.c', 'include/kserver.h'], [('server', 'kserver_init, kserver_refs, kserver_release'), ('listener', 'add_server_socket, kserver_selectable_destroy'), ('open and close', 'kserver_open, kserver_open_exsit, kserver_close')],
  TYPE, 'Socket primitives are opaque; which loop gets a listener is not judged beyond each loop being used.')
P('P20', 'Accepted connections: delivered once, owned, counted and addressed correctly',
  'When a listener becomes ready one pending connection is accepted, non-blocking and never inherited by child programs, and the listener\'s own callback gets the accepted socket exactly once; with nothing pending the listener waits again silently, and any failure is reported to the callback exactly once as negative. An accepted connection owns its socket, carries the peer\'s address (copied from the listener and nothing beyond it), counts one reference on the server, and on a TLS listener gets a TLS session or is destroyed once. The accept handler gives each connection to the user\'s callback exactly once, on the connection\'s own loop, then keeps the listener accepting, or destroys it exactly once if the server was closed or it cannot accept.',
  ['inputs', 'histories', 'fault_sequences'], 'every result of accept, every address family, every failure while a connection is set up',
  'tests accept plain IPv4 connections that succeed; failing accepts, unix peers, TLS set-up failures and closing while accepting never occur',
  ['src/kserver.c', 'src/kconnection.c', 'include/kserver.h'], [('accept event', 'kserver_selectable_accept_event'), ('connection', 'kserver_accept, kconnection_new'), ('accept handler', 'KACCEPT_CALLBACK')],
  TYPE, 'Selector accept operations are judged in P11/P13; a failing accept other than "nothing pending" ends the listener by design.')
P('P21', 'Connections: created empty, addressed within bounds, destroyed exactly once',
  'A new connection starts empty, without a socket, with its own pool and a copy of the given address limited to the room there is (a unix address in its own room). Starting a connect uses the connection\'s own address and reports a failed start to its callback exactly once. Destroying takes an open socket off its loop, closes it once, frees the TLS session, gives the server-name data and the server reference (or datagram record) back once, then frees the pool and connection once; an established TLS connection without error is shut down first, and a datagram socket that cannot be created leaves nothing behind.',
  ['inputs', 'histories', 'fault_sequences'], 'every address length and family, every state of the connection when it is destroyed',
  'tests destroy idle TCP connections over loopback; unix addresses, long addresses, TLS connections in every state and failing sockets never occur',
  ['src/kconnection.c', 'src/kselectable.c', 'src/kudp.c'], [('creation', 'kconnection_new, kconnection_new2, kconnection_new3'), ('connect', 'kconnection_half_connect, kconnection_connect'), ('destruction', 'kconnection_destroy, kconnection_real_destroy, selectable_clean'), ('datagrams', 'kudp_new2')],
  TYPE, 'Raw unix addresses given to kconnection_new are trusted to be complete (its parameter has no length).')
P('P22', 'TLS on a connection: each step ends once; sessions set up whole or not at all',
  'Each step of a TLS handshake or shutdown ends in exactly one of: telling the caller (done, or failed; a shutdown that fails counts as done) or waiting with the same callback and argument for exactly the readiness TLS asked for, not trusting a stale one; early data is tried first exactly if enabled and its first byte is kept for the reader. A connection\'s handshake is continued on readiness until it succeeds or fails, then tells its caller exactly once and frees its record once. Setting up TLS on a connection attaches one session with the right role, cleared marks and (when connecting) the host name given, or frees what it made and reports failure; the application is asked at most once for a server name, and the context it gives is switched to.',
  ['inputs', 'histories', 'fault_sequences'], 'every answer of the TLS library at every step, early data on or off, every failure while a session is made',
  'loopback handshakes go through without waiting to write, renegotiating readiness, early data or failing set-up',
  ['src/kselectable.c', 'src/kconnection.c', 'src/kgl_ssl.c'], [('steps', 'kselectable_ssl_handshake, kselectable_ssl_shutdown'), ('connection', 'kconnection_ssl_handshake'), ('sessions', 'kconnection_ssl_connect, kconnection_ssl_accept'), ('server name', 'kgl_ssl_sni')],
  TYPE, 'The TLS library itself is modelled as returning any result. Also analysed with ENABLE_KSSL_BIO.')
P('P23', 'TLS contexts: counted, replaced safely, built completely or freed',
  'A shared TLS context starts with one reference and is freed, once, exactly with its last; giving a server a new one releases the old, and every listener gets its own reference (directly if the server is not started, else by one notice to the listener\'s loop) and releases the one it had; binding a TLS server without a context fails, and a failed bind releases the context once. A client or server context is returned only if the given certificate, key and CA files were accepted and the key fits, verifies the peer exactly if CA files were given (a server then requires a certificate), never allows SSLv3 by default, and is otherwise freed once; a protocol list – names separated by blanks, in any case – allows exactly the protocols it names. Loading certificates and keys tries the given passwords in order, each at most once, reports success exactly if all parts were accepted and then leaves no error behind for later TLS operations, and releases every object it made exactly once on every path.',
  ['inputs', 'schedules', 'fault_sequences'], 'every failure of each step of the TLS library, every set of protocol names, any number of listeners',
  'tests build one context from good files; failures, reloads on running servers, inline certificates and chains never occur',
  ['src/kgl_ssl.c', 'include/kgl_ssl.h', 'src/kserver.c'], [('counting', 'kgl_release_ssl_ctx'), ('replacing', 'kserver_set_ssl_ctx, kserver_bind'), ('building', 'kgl_ssl_ctx_new_client, kgl_ssl_ctx_new_server, kgl_ssl_ctx_new_server2, kgl_ssl_certificate'), ('protocols', 'kgl_ssl_ctx_set_protocols')],
  TYPE, 'Protocol lists are decided on about seventy definite ones; a listener destroyed between the posted update and its run is not judged.')
P('P24', 'Name resolution: one lookup per name, every caller answered once, safely',
  'A name (regardless of case, per kind of lookup) that is not cached is looked up by exactly one background job however many callers ask meanwhile; each caller\'s callback runs exactly once, on its own loop, with its own argument and a reference to the address that stays valid until it returns, or with none if the lookup found nothing, could not be started or came too late, and a lookup that could not be started is not remembered. A cached name answers its caller at once, without holding the cache\'s lock, with its current or else its last good address; it is refreshed by at most one job per 30 seconds, whose failures keep the last good address until ten in a row. Every address is freed exactly when its last reference goes, flushing removes exactly the entries unused for an hour (or beyond the maximum count), never one being looked up, whatever lookups, refreshes and flushes run at the same time, and the count of cached names is exact; a fiber asking for a name gets the result and a reference of its own, at once for a numeric one.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every order of lookups, answers, refreshes and flushes on any threads, every failure of the resolver or of starting a job',
  'the resolver test needs a network and asks for one name once; concurrent callers, refreshes, failures and flushes never occur',
  ['src/kaddr.c', 'include/kaddr.h', 'src/kfiber.c'], [('lookup', 'kgl_find_addr, kgl_find_cache_addr, async_addr_worker'), ('refresh', 'async_addr_cache_worker'), ('flush', 'kgl_flush_addr_cache'), ('references', 'kgl_addr_new, kgl_addr_refs, kgl_addr_release'), ('fibers', 'kfiber_net_getaddr')],
  TYPE, 'The red-black tree is trusted here; the resolver is modelled as returning any answer.')
P('P25', 'Sockets: opened as asked, closed when a step fails; addresses ordered soundly',
  'A socket opened to listen, to connect or for datagrams has the family of its address, is never inherited by child programs, blocks only if asked to, has exactly the options asked for, is bound and connected to exactly the given addresses with their family\'s length, and is closed exactly once, and not returned, if any step fails; before listening on a unix path only a stale socket there is removed, and a path that does not fit is refused. Waiting for a socket lasts at most the time given and is true only for a socket that is ready without error; a resolved address is copied within its room with its port, and the resolver\'s answer freed once. IP addresses and integer keys are totally ordered without overflow, by family first and then the full address, equal ones have equal hashes, and conversions, lengths and ports fit the family.',
  ['inputs', 'fault_sequences'], 'every address family, flag combination, failure of each system call, path length and pair of addresses or integers',
  'tests open IPv4 loopback sockets that succeed; failures, unix paths, IPv6 and far-apart keys never occur',
  ['src/ksocket.c', 'include/ksocket.h', 'src/krbtree.c'], [('opening', 'ksocket_listen, ksocket_connect, ksocket_half_connect, ksocket_new_udp'), ('waiting and modes', 'wait_socket_event, ksocket_no_block, ksocket_is_block, ksocket_set_time'), ('addresses', 'ksocket_getaddr, ksocket_addrinfo_sockaddr, ksocket_unix_addr, ksocket_ipaddr'), ('order and hash', 'ksocket_addr_compare, ksocket_ipaddr_compare, ksocket_addr_hash, ip_addr, rbtree_int_cmp')],
  TYPE, 'Which option a failing setsockopt leaves unset is not judged; unix addresses have no order.')
P('P26', 'Memory pools: pieces inside their blocks, everything given back exactly once',
  'Every piece taken from a pool lies wholly inside one block of the pool, behind everything taken from that block before, word-aligned when asked for; when no block has room a fresh one is appended, and larger requests get memory of their own that the pool remembers; when memory runs out nothing is kept. Destroying a pool runs every clean-up handler once with its own data, then frees each large piece and each block exactly once; resetting does the same but keeps the blocks, emptied, and forgets the rest; one large piece can be freed early, once. A growing array returns the slot behind its elements, keeps them in order when it moves, grows in place only where its block has room, and is unchanged when it cannot grow.',
  ['inputs', 'histories', 'fault_sequences'], 'every size and order of requests, every failure to get memory, any number of blocks, large pieces and handlers',
  'pools are only exercised by connections that take little; full blocks, odd sizes, large pieces, resets and failing memory never occur',
  ['src/kmalloc.c', 'include/kmalloc.h'], [('taking', 'kgl_palloc, kgl_pnalloc, kgl_pmemalign'), ('giving back', 'kgl_destroy_pool, kgl_reset_pool, kgl_pfree'), ('handlers', 'kgl_cleanup_add, kgl_cleanup_insert'), ('arrays', 'kgl_array_create, kgl_array_push, kgl_array_push_n, kgl_array_destroy')],
  TYPE, 'A pool is assumed to be created with at least the minimum size and products of sizes not to overflow.')
P('P27', 'Byte buffers: what is written is read once, in order, and never outside memory',
  'In a chunked buffer the bytes read are exactly the bytes written or given as chunks (an inserted chunk comes first, without repeating what was already read), each once and in order, whatever the pieces they are written and read in; the room offered lies inside the last chunk, the count of bytes is exact, chunks given are never written into, and every chunk is freed exactly once, when read to its end or when the buffer is destroyed. A flat buffer keeps its bytes when it grows, is written only where it has room, and after a partial read keeps exactly the bytes not taken. Skipping bytes already sent in a list of pieces leaves exactly the rest, and numbers are written whole.',
  ['inputs', 'histories'], 'every sequence of writes, reads, appended and inserted chunks of any lengths, every chunk size, every number of bytes skipped',
  'the tests never touch these buffers beyond whole small messages; partial reads, exact chunk ends, given chunks and growth never occur',
  ['src/kbuf.c', 'include/kbuf.h'], [('chunks', 'krw_get_write_buffer, krw_write_success, krw_write_str, krw_append, krw_insert'), ('reading', 'krw_get_read_buffers, krw_read_success, krw_read'), ('flat buffers', 'ks_write_str, ks_get_write_buffer, ks_save_point, ks_read_success'), ('skipping', 'kbuf_seek, kgl_iovec_seek')],
  TYPE, 'Failing memory is judged only where the code reports it; total lengths are assumed to fit an int.')

P('P28', 'Ordered trees: order, links and balance survive every insertion and removal',
  'Inserting into or removing from an ordered tree keeps every other entry, keeps the order, and keeps all links between parents and children in step, and leaves a red-black tree (black root, no red node under a red one, equally many black nodes on every way down). Inserting an equal key returns the entry already there and says so; searches follow the comparison and return the equal entry, or the documented neighbour; walking forwards, backwards or with a callback visits every entry once in order, and entries the callback asks to remove are removed and freed exactly once without disturbing the walk.',
  ['inputs', 'histories'], 'every tree and every insertion or removal, by induction over the local shapes the rebalancing steps can meet; every sequence of comparison results and callback answers',
  'no test builds a tree; a wrong rotation case or colour shows only in rare shapes and then only as a slow or broken lookup much later',
  ['src/krbtree.c', 'include/krbtree.h'], [('insertion', 'rb_insert_color, rb_link_node, rbtree_insert, rbtree_insert2'), ('removal', 'rb_erase, __rb_erase_color, rbtree_remove, rbtree_iterator'), ('search', 'rbtree_find, rbtree_find2, rbtree_find_cover'), ('walking', 'rb_first, rb_last, rb_next, rb_prev')],
  'shape analysis: abstract interpretation of LLVM IR from every local tree shape (summary subtrees), with order, link, colour and black-height obligations', 'Walks that need no comparison are decided on shapes of up to three levels; the caller\'s comparison is a consistent order and allocation succeeds.')

P('P29', 'Event loops of a program: number, numbering, settings, growth, work that waits',
  'Setting up N event loops gives the greatest power of two not above N (1 to 64): each has its own place and number, exactly one keeps the clock, a loop number always stands for an existing loop, and time-out settings reach every loop (default a minute; connecting like reading when not given). Work registered before the loops exist is posted exactly once to one of them when they do, later work at once; per-thread callbacks are refused once loops exist. Starting runs each loop exactly once; growing succeeds only from a single loop, by its own thread and to more loops, and new loops get place, number and the first one\'s time-outs before they run, while a refused growth changes nothing.',
  ['inputs', 'histories'], 'every requested number of loops, every number used to address one, every setting; up to three items of waiting work',
  'tests use one or a few fixed loop counts and never grow or reconfigure; a loop without settings or number fails only under load',
  ['src/kselector_manager.c'], [('set-up', 'selector_manager_init, kgl_pow2'), ('work that waits', 'selector_manager_on_ready, selector_manager_thread_init'), ('settings', 'selector_manager_set_timeout'), ('start and growth', 'selector_manager_start, selector_manager_grow'), ('choice', 'get_perfect_selector, get_selector_by_index')],
  'abstract interpretation of LLVM IR over every loop count (unrolled over the bounded table) with seeded manager state and per-path obligations', 'The load balance of the choice is not judged.')
P('P30', 'Life of one event loop: set up whole, run turn by turn, given back whole',
  'A new event loop waits for nothing, has time-outs and no task, and everything its event mechanism acquires (descriptors, file context, lock, memory) is released exactly once when it is destroyed. A thread that begins a loop owns it before the per-thread callbacks run, each callback is called once at begin and once at end, and the thread gives up the loop and its main task afterwards. Running one function on a loop of its own sets everything up once and in order, calls the function once with its argument, and returns its result after the loop was left and given back; setting up the library again changes nothing.',
  ['inputs', 'histories'], 'every path of set-up, turns and tear-down; up to three per-thread callbacks',
  'tests end with the process, so nothing that leaks or is torn down in the wrong order ever shows; a second loop on the same thread is never tried',
  ['src/kselector.c', 'src/kselector_manager.c', 'src/kepoll_selector.c', 'src/kfiber.c'], [('creation', 'kselector_new, epoll_selector_init'), ('end', 'kselector_destroy, epoll_selector_destroy'), ('thread', 'kselector_init, kselector_exit, kfiber_thread_init, kselector_thread, kselector_step'), ('program', 'kasync_main, kasync_init')],
  'abstract interpretation of LLVM IR: acquire/release matching between set-up and tear-down, order obligations on every path', 'The io_uring and other platforms\' event mechanisms are not judged.')

P('P31', 'Datagrams: sent and received whole, with the right addresses and results',
  'A new datagram connection has the address family asked for, belongs to the loop given, and leaves nothing behind when no socket could be had; binding and sending pass the address with the length of its family and report success exactly when the system accepted the call. Each readiness takes one datagram into the reader\'s buffers, with room for the whole sender address, and gives exactly one answer: the length (an empty datagram included), waiting again unchanged when nothing is there, or an error. The address a datagram was sent to is requested for the family of the socket and handed out only from the last datagram and for the matching family.',
  ['inputs', 'fault_sequences'], 'every path of creation, binding, sending, receiving and every error of the system call', 'no stable test uses datagrams at all',
  ['src/kudp.c', 'src/kselectable.c'], [('creation', 'kudp_new2'), ('sending', 'kudp_bind, kudp_send_to, kudp_send, kudp_add_multicast'), ('receiving', 'selectable_recvmsg, selectable_udp_read_event, kudp_get_recvaddr')],
  'abstract interpretation of LLVM IR: argument and result obligations at every system call on every path', '')
P('P32', 'Shared counters, shared strings, linked lists and buffer totals',
  'Each atomic counter operation (16, 32 or 64 bits: increment, decrement, set, and where offered get, add, subtract, compare-and-swap) is one indivisible step of that width and returns what its kind promises (new value, old value, or whether it swapped). A reference-counted string starts with one holder and its own text and length, and is freed, text and record exactly once, by the release that leaves no holder. Doubly and singly linked lists keep every link consistent under insert, append and remove, and walking visits each element once in order; the total of a buffer list counts every buffer once.',
  ['inputs', 'schedules', 'histories'], 'every path of each operation; lists of up to three elements with every position; every width of counter', 'the tests use these parts only through others; a non-atomic step or a wrong link needs a particular schedule or list shape',
  ['include/katom.h', 'include/kstring.h', 'include/klist.h', 'include/klib.h'], [('counters', 'katom_inc, katom_dec, katom_set, katom_get, katom_add, katom_sub, katom_cas and the 16/64 variants'), ('strings', 'convert_refs_string, kstring_from, kstring_from2, kstring_refs, kstring_release'), ('lists', 'klist_insert, klist_append, klist_remove, klist_empty, klist_foreach, klist_rforeach, kforward_list_*, kfoward_list_remove')],
  'abstract interpretation of LLVM IR over symbolic list shapes; one atomic instruction of the right width per operation', 'Lists are decided for up to three elements; an operation touches only the neighbours of one element.')
P('P33', 'Plain files: opening as asked, seeking, sizes and times, reading whole pieces',
  'Opening a file uses the access, create, truncate and append behaviour its mode means and passes on exactly the options asked for, always closed on exec; seeking counts from the place asked with the full 64-bit distance and reports success exactly when the system did it. Size and time are what the system says about that file and zero when it cannot tell; setting the time sets both times and reports what the system answered. Reading a whole piece goes on where the last read ended until everything is there, and reports success only then.',
  ['inputs', 'fault_sequences'], 'every mode with every combination of options, every origin, every answer of the system', 'no stable test opens files through this interface with options, seeks, or sees a short read',
  ['src/kfile.c', 'include/kfile.h'], [('opening', 'kfopen'), ('position', 'kfseek'), ('information', 'kfsize, kftime, kfile_last_modified, kfutime'), ('reading', 'kfread_all')],
  'abstract interpretation of LLVM IR: argument and result obligations at every system call on every path', '')
P('P34', 'Requests to sockets reach their own loop; questions about them get true answers',
  'Removing a socket, running a callback next, handing it to a loop, sending a file and asking for (or withdrawing) notice of the peer hanging up reach the event mechanism once, with exactly that socket and the callback and argument given, and notice is refused where it is not supported. Shutting down shuts both directions; delaying and not delaying set exactly the TCP option meant; the own address is asked for with exactly the room of an address. Whether a socket is marked, busy, uses TLS, has begun its handshake or can send files, and a server\'s flags, data and TLS context, are answered from their current state without changing it; clearing marks or setting a flag changes exactly those given.',
  ['inputs'], 'every path of each request and question; a table of mark and flag words; sockets with and without TLS and kernel TLS', 'the tests never look at most of these answers and use hang-up notices and kernel TLS not at all',
  ['include/kselectable.h', 'include/kconnection.h', 'include/kserver.h', 'src/kgl_ssl.c'], [('requests', 'selectable_remove, selectable_next, selectable_sendfile, selectable_bind, selectable_readhup, selectable_remove_readhup, selectable_shutdown'), ('questions', 'is_selectable, selectable_is_locked, selectable_get_ssl, selectable_support_sendfile, kconnection_is_ssl and its kin'), ('connections', 'kconnection_delay, kconnection_no_delay, kconnection_self_addr'), ('servers', 'kserver_test_flag, kserver_set_opaque, kserver_get_ssl_ctx')],
  'abstract interpretation of LLVM IR: argument, result and effect obligations on every path, concrete tables of flag words', '')
P('P35', 'TLS sessions are bound to certificate and accepted authorities; protocols agreed',
  'The identity a server\'s TLS sessions are bound to is one digest of the certificate (its file name and the file up to its end or first MiB, or the text given) followed by every accepted client authority in order, and it counts as set exactly if every step of the digest and the setting succeeded. Choosing a protocol first settles the name the client wants, if the application set a callback for that (a refusal ends it), asks the application once with the data of the context then in use, and reports agreement exactly if both sides share a protocol; an application that says nothing offers a well-formed list. The callbacks used are the ones set last, the agreed protocol is told from ALPN and only without it from NPN, cipher lists succeed exactly if accepted, and early data is accepted exactly if asked for.',
  ['inputs', 'fault_sequences'], 'every failing step; files of up to three (thorough: five) pieces and up to three authorities; every answer of the application and the library', 'the tests use one certificate without authorities and never resume sessions or disagree on a protocol',
  ['src/kgl_ssl.c', 'src/kconnection.c'], [('identity', 'kgl_ssl_session_id_context, kgl_ssl_session_id_context_from_buffer, kgl_ssl_session_digest_x509_list'), ('negotiation', 'kgl_ssl_npn_selected, kgl_ssl_npn_advertise, kgl_ssl_get_next_proto_negotiated'), ('set-up', 'kssl_init2, kssl_set_sni_callback, kssl_set_npn_callback'), ('settings', 'kgl_ssl_ctx_set_cipher_list, kgl_ssl_ctx_set_early_data')],
  TYPE, 'A certificate file that cannot be opened, or a digest failing within the file, leaves the file (or its rest) out of the identity.')

N('P36', 'Switching fibers keeps every register and the whole stack',
  'Switching from one fiber to another and back restores every callee-saved register, the stack pointer and the floating-point control state of the fiber that was left.',
  ['schedules'], 'every switch between any two fibers', 'a test only sees the registers the compiler happened to use', ['src/kfiber.c'], [('context switch', 'jump_fcontext / swapcontext / libucontext assembly used by src/kfiber.c')],
  'the switch is hand-written assembly (or libc\'s); it is not part of the program the IR describes, and register preservation is a property of machine code, not of the source analysed here')
N('P37', 'TLS keeps the bytes secret and unchanged',
  'Bytes sent over a TLS connection reach the peer unchanged or the connection fails, and nobody else can read them.',
  ['inputs', 'histories'], 'every attacker on the network', 'needs an attacker model', ['src/kgl_ssl.c', 'src/kssl_bio.c'], [('records', 'SSL_read, SSL_write (OpenSSL)')],
  'the records are made and checked by OpenSSL, whose source is not in this tree; what kasync contributes (when it calls the library, what it does with each answer) is P11, P16, P22 and P23')
N('P38', 'Every runnable fiber, timer and ready socket is served within a bounded time',
  'A fiber that was woken, a timer that is due and a socket that is ready are served within a bounded time, whatever else the loop has to do.',
  ['schedules'], 'every load and every scheduling of the threads by the kernel', 'depends on load and scheduling', ['src/kselector.c', 'src/kepoll_selector.c'], [('turn', 'kselector_start and the back end\'s wait')],
  'quantifies over run-time durations: how long callbacks of the application run and when the kernel schedules the thread; no static argument in reach bounds them. That nothing is lost or served twice is P12 to P15')
