CH = "schedule points on the channel's atomics, locks and queues (cfg futures_verif)"
prop("C01", "chan", "Channels deliver every accepted message exactly once, in order",
  "Every message that a multi-producer channel (bounded or unbounded) accepted is received exactly once, and nothing else is received; messages of one sender, and of sends that happened one after the other, come out in the order they were accepted. A waiting receiver is woken when a message or the end of the channel is available to it. Messages rejected or never received are handed back or dropped exactly once.",
  ["schedules", "histories"], "all histories of sends, clones, receives, closes and drops, on any number of threads and interleavings",
  "Tests run a few fixed scripts and stress loops on the schedules the OS happens to give; delivery must hold for each interleaving of the lock-free queue, the message count and the wakers.",
  ["futures-channel/src/mpsc/mod.rs", "futures-channel/src/mpsc/queue.rs", "futures-core/src/task/__internal/atomic_waker.rs"],
  [("lock-free MPSC queue", "mpsc/queue.rs push/pop_spin"), ("message counter and open bit in one atomic", "mpsc/mod.rs inc_num_messages/next_message"), ("receiver wakeup", "mpsc/mod.rs queue_push_and_signal, Receiver::poll_next re-check after register")],
  SCHED, NOTE_S, CH)
prop("C02", "chan", "Bounded channels bound memory and always release waiting senders",
  "A bounded channel never holds more than its buffer plus one message per sender ever attached, and an unbounded one never makes a sender wait. A send is refused or made to wait only while the buffer is full and the sender's own guaranteed slot is taken. A sender that waits is woken once there is room again, whatever other operations took place in between.",
  ["schedules", "histories", "configurations"], "all buffer sizes (including 0), numbers of senders and interleavings of sends, waits, receives, clones and drops",
  "Back-pressure tests use one or two senders and a fixed order; the bound and the wakeup must hold for every interleaving of parking, unparking, receiving, cloning and dropping.",
  ["futures-channel/src/mpsc/mod.rs", "futures-channel/src/mpsc/sink_impl.rs"],
  [("parked sender queue", "mpsc/mod.rs park/unpark_one/poll_unparked"), ("message counter", "mpsc/mod.rs inc_num_messages/dec_num_messages")],
  SCHED, NOTE_S, CH)
prop("C03", "chan", "Closing a channel is seen by all, loses nothing and drops the rest",
  "After the receiver closes or is dropped, or all senders are gone or the channel is closed from a sender, no further message is accepted and every rejected message comes back to its sender. The receiver still gets everything accepted before the close and then a stable end, never an early end and never a wait without end. Waiting senders are released by the receiver's close, and messages left in the channel are dropped exactly once.",
  ["schedules", "histories", "fault_sequences"], "every point and every side at which the channel is closed, disconnected or dropped, in every interleaving with sends and receives",
  "Tests close at chosen quiet moments; races between close and send need one specific interleaving.",
  ["futures-channel/src/mpsc/mod.rs"],
  [("open bit in the message counter", "mpsc/mod.rs set_closed/inc_num_messages/next_message"), ("receiver close and drop drain", "mpsc/mod.rs Receiver::close, Drop"), ("last sender closes", "mpsc/mod.rs Drop for BoundedSenderInner/UnboundedSenderInner")],
  SCHED, NOTE_S, CH)
prop("C04", "chan", "A oneshot delivers its value exactly once or reports cancellation",
  "A value accepted by a oneshot is received exactly once or dropped with the receiver; a value whose receiver was gone beforehand is handed back to the sender. The receiver gets the value or a cancellation, never waits after the sender sent or vanished, and the sender's cancellation future resolves exactly when the receiver closes or is dropped. A side that waits is woken by the other side's action, and nothing of a side that is gone, value or waker, is kept.",
  ["schedules", "histories"], "all interleavings of sending, dropping, closing, polling and querying from both sides",
  "The tests race two threads a number of times; each three-step interleaving of complete flag, data lock and wakers has to be right.",
  ["futures-channel/src/oneshot.rs", "futures-channel/src/lock.rs"],
  [("complete flag and try-locks", "oneshot.rs Inner::send/recv/drop_tx/drop_rx/close_rx"), ("spin-free try lock", "lock.rs Lock::try_lock")],
  SCHED, NOTE_S, CH)
prop("C05", "chan", "A registered waker is never lost, and wake publishes to the woken task",
  "When one task registers its waker and re-checks its condition, and others set the condition and then wake, the task is always notified through the waker it registered last or sees the condition itself. Everything written before the wake is visible to the woken task. Each call of wake wakes at most the one registered waker, taking it wakes nobody, and wakers are neither leaked nor freed twice.",
  ["schedules"], "all interleavings of one registering task with any number of waking threads",
  "Only a stress test exists; the register/wake race has a handful of critical interleavings and memory-ordering effects that a normal run on x86 never shows.",
  ["futures-core/src/task/__internal/atomic_waker.rs"],
  [("REGISTERING/WAKING state machine", "atomic_waker.rs register/take")],
  SCHED, NOTE_S, CH)
FU = "schedule points on the ready queue, the task list and the wakers (cfg futures_verif)"
prop("C06", "unord", "A set of futures yields each output exactly once and misses no wakeup",
  "Every future put into an unordered set of futures is polled at least once, its output comes out exactly once after it completed, and the set ends exactly when it is empty. A member is polled again only after it was woken, a wake from any thread always reaches the task polling the set, and no member is starved by others that wake themselves. Members are never moved while in the set, are dropped exactly once (also when they panic, or the set is cleared or dropped while wakers live on), and counting and iterating agree with the contents.",
  ["schedules", "histories", "fault_sequences"], "all histories of pushes, polls, wakes, iterations, clears and drops, with wakes racing from other threads",
  "The unsafe intrusive list and lock-free ready queue have to be right for every order of wake, enqueue, dequeue, release and drop; tests cover a few.",
  ["futures-util/src/stream/futures_unordered/mod.rs", "futures-util/src/stream/futures_unordered/ready_to_run_queue.rs", "futures-util/src/stream/futures_unordered/task.rs", "futures-util/src/stream/futures_unordered/iter.rs"],
  [("ready-to-run queue", "ready_to_run_queue.rs enqueue/dequeue"), ("task wake flags", "task.rs wake_by_ref, mod.rs poll_next"), ("linked list of all tasks", "mod.rs link/unlink/release_task"), ("yield budget", "mod.rs poll_next yield_every")],
  SCHED, NOTE_S, FU)
prop("C07", "unord", "Ordered sets and ordered buffering keep submission order",
  "A queue of futures yields outputs in queue order (pushed at the back or at the front), whatever order they complete in, each exactly once, with all members running concurrently. Ordered buffering and ordered concurrent mapping of a stream give the same sequence as running the futures one after the other, and errors take the place of the item that failed. The end comes exactly after the last output, and every completion that makes progress possible wakes the consumer.",
  ["inputs", "histories", "schedules"], "all completion orders, pushes at both ends, and buffer sizes",
  "Order tests use two or three futures; all completion orders and interleaved pushes at both ends are not sampled.",
  ["futures-util/src/stream/futures_ordered.rs", "futures-util/src/stream/stream/buffered.rs", "futures-util/src/stream/try_stream/try_buffered.rs", "futures-util/src/future/join_all.rs"],
  [("index heap", "futures_ordered.rs OrderWrapper, poll_next, push_front"), ("bounded in-progress queue", "buffered.rs poll_next")],
  SCHED, NOTE_S, FU)
prop("C08", "unord", "Concurrency limits are never exceeded and always used",
  "Adaptors with a concurrency limit (ordered and unordered buffering, concurrent for-each and flattening, and their fallible versions) never run more futures or inner streams at once than the limit. While fewer run and the source has an item available, another one is started without waiting for the running ones, and after all started work is done nothing is left waiting. No limit means unlimited; every item is processed exactly once, and the first error ends the fallible versions.",
  ["inputs", "configurations", "histories"], "all limits (including none and zero where allowed), sources and completion orders",
  "Tests check one limit with a fixed completion order; both over-running and under-using the limit depend on when sources and futures become ready.",
  ["futures-util/src/stream/stream/buffered.rs", "futures-util/src/stream/stream/buffer_unordered.rs", "futures-util/src/stream/stream/for_each_concurrent.rs", "futures-util/src/stream/stream/flatten_unordered.rs", "futures-util/src/stream/stream/try_for_each_concurrent.rs", "futures-util/src/stream/try_stream/try_buffer_unordered.rs"],
  [("fill loop", "buffered.rs / buffer_unordered.rs poll_next"), ("limit and source polling", "for_each_concurrent.rs poll"), ("wake state machine", "flatten_unordered.rs SharedPollState")],
  SEQ, NOTE)
prop("C09", "unord", "Merging streams loses, duplicates and starves nothing",
  "Merging streams (two-way, many-way, round-robin, biased and macro forms, dynamic sets of streams, unordered flattening) yields exactly the items of all inputs, each input's items in its own order, and ends exactly when all inputs have ended. No input is polled after its end, a wake of any input wakes the merged stream's task, and fair forms never ignore an input that is ready while others stay ready. Streams are handed back or dropped exactly once.",
  ["inputs", "histories", "schedules"], "all inputs, readiness orders and interleavings of wakes, pushes and drops",
  "Which input is ready when, which ends first and when others wake gives a large space; tests use fixed small scripts.",
  ["futures-util/src/stream/select.rs", "futures-util/src/stream/select_with_strategy.rs", "futures-util/src/stream/select_all.rs", "futures-util/src/stream/stream/flatten_unordered.rs", "futures-util/src/stream/stream/into_future.rs", "futures-macro/src/stream_select.rs"],
  [("end bookkeeping", "select_with_strategy.rs InternalState"), ("set of stream futures", "select_all.rs poll_next"), ("inner wakers", "flatten_unordered.rs WrappedWaker")],
  SCHED, NOTE_S, FU)
FUT = "futures-util/src/future/"
STR = "futures-util/src/stream/"
prop("C10", "comb", "Joins give every result in position, and the first error at once",
  "Joining futures (pairs, macro forms, any number of them) completes exactly when all of them have, with each output at its future's position; every member is started, polled only until it completes, and its wakeups reach the joining task. The fallible forms complete with the first error as soon as it occurs, without waiting for the others. Outputs and members are dropped exactly once, also on errors, panics and cancellation.",
  ["inputs", "schedules", "fault_sequences"], "all numbers of futures, completion orders, failure points and cancellation points",
  "Joins are tested with a few ready or pending futures; completion order, small/large representations and error timing are combinations no test enumerates.",
  [FUT + "join.rs", FUT + "try_join.rs", FUT + "join_all.rs", FUT + "try_join_all.rs", FUT + "maybe_done.rs", FUT + "try_maybe_done.rs", "futures-macro/src/join.rs"],
  [("per-member state", "maybe_done.rs poll/take_output"), ("small and big representation", "join_all.rs / try_join_all.rs poll"), ("macro expansion", "futures-macro/src/join.rs")],
  SEQ, NOTE)
prop("C11", "comb", "Selecting yields a finished branch, keeps the losers and stays fair",
  "Selecting over futures or streams (pair, list, first-success and macro forms) completes as soon as a branch does, with that branch's value, and hands back or keeps the others usable; branches that are already finished are skipped, and the default and complete arms run exactly when nothing is ready or everything is finished. Selecting the first success returns an error only when all have failed. Biased forms prefer the first listed ready branch, and the unbiased macro never favours one ready branch for ever.",
  ["inputs", "schedules"], "all readiness orders, numbers and kinds of branches, and reuse of losing branches in loops",
  "Which branch is ready when, and how losers are reused afterwards, is a schedule; tests fix it.",
  [FUT + "select.rs", FUT + "select_all.rs", FUT + "select_ok.rs", FUT + "try_select.rs", "futures-macro/src/select.rs", "futures-util/src/async_await/random.rs"],
  [("poll order", "select.rs poll"), ("remaining list", "select_all.rs / select_ok.rs poll"), ("macro expansion", "futures-macro/src/select.rs")],
  SEQ, NOTE)
prop("C12", "stream", "Stream adaptors give the same items as the sequential pipeline",
  "A pipeline of stream adaptors and consumers over any source gives exactly what the same pipeline over a plain sequence gives: same items, same order, same result, each closure called with the same arguments in the same order, and nothing runs before it is polled. This holds whenever and however often sources and asynchronous closures make it wait; wakeups are never lost, sources are not polled after their end, and chunking, peeking and stopping hand out each item exactly once. Dropping a pipeline midway drops everything it holds exactly once.",
  ["inputs", "schedules", "configurations"], "all compositions of adaptors, item sequences and readiness patterns",
  "Each adaptor has a test or two with always-ready input; the state kept across waiting points and the composition of adaptors are not covered.",
  [STR + "stream/mod.rs", STR + "stream/filter.rs", STR + "stream/then.rs", STR + "stream/scan.rs", STR + "stream/take_until.rs", STR + "stream/peek.rs", STR + "stream/chunks.rs", STR + "stream/zip.rs", STR + "stream/flatten.rs", STR + "unfold.rs"],
  [("pending item kept across a waiting predicate", "filter.rs/skip_while.rs/take_while.rs/filter_map.rs poll_next"), ("inner stream", "flatten.rs poll_next"), ("queued items", "zip.rs, peek.rs, chunks.rs")],
  SEQ, NOTE)
prop("C13", "stream", "Fallible streams pass errors in place and stop where documented",
  "Adaptors on streams of results transform successes and errors exactly as the same operation on a plain sequence of results, keep errors at their position, and call closures only for the items they are meant for. Consumers that stop at the first error return that error and take nothing after it; chunking hands out what was collected together with the error. All of this holds for every pattern of waiting sources and closures, without lost wakeups, leaks or double drops.",
  ["inputs", "schedules", "fault_sequences"], "all compositions, positions of errors and readiness patterns",
  "Errors interact with the state kept while waiting; tests use one error at one position with ready input.",
  [STR + "try_stream/mod.rs", STR + "try_stream/try_filter.rs", STR + "try_stream/try_take_while.rs", STR + "try_stream/try_chunks.rs", STR + "try_stream/try_flatten.rs", STR + "stream/try_fold.rs", STR + "stream/try_for_each.rs"],
  [("error passing", "try_stream/*.rs poll_next"), ("partial results", "try_chunks.rs, try_ready_chunks.rs, try_concat.rs")],
  SEQ, NOTE)
prop("C14", "stream", "Size hints and termination flags are always truthful",
  "At every moment, the size bounds a stream adaptor reports contain the number of items it will still yield, provided its sources report truthful bounds, and computing them neither overflows nor panics. A stream or future reports that it is terminated only when nothing more comes, and reports it once it has ended for good (a collecting or forwarding future that gave an error may go on), so that selecting over it in a loop skips it. A terminated flag never appears while items are still to come.",
  ["inputs", "histories"], "all adaptors, source bounds (up to the largest number) and every moment of their life",
  "Bounds and flags have to be right in every intermediate state (item pending in a closure, item peeked, queue partly drained); tests check initial states.",
  ["futures-core/src/stream.rs", "futures-core/src/future.rs", STR + "stream/scan.rs", STR + "stream/zip.rs", STR + "stream/chain.rs", STR + "stream/chunks.rs", STR + "stream/peek.rs", STR + "stream/take_until.rs", STR + "try_stream/try_take_while.rs", "futures-macro/src/stream_select.rs"],
  [("size_hint", "every adaptor"), ("is_terminated", "every FusedStream/FusedFuture impl")],
  SEQ, NOTE)
prop("C29", "comb", "Future combinators compute what the sequential code would",
  "A chain of future combinators (mapping, chaining, flattening, recovering, inspecting, their fallible forms) gives exactly the value of the corresponding sequential expression, with each closure called at most once, in order, and only on the path it belongs to. Members are polled only until they complete, wakeups pass through, and a caught panic becomes an error value. A fused future stays pending after completion, immediate polling answers without waiting, and dropping midway drops everything exactly once.",
  ["inputs", "schedules", "fault_sequences"], "all compositions of combinators, outcomes of their parts, and readiness patterns",
  "Tests check single combinators on ready futures; state machines with waiting points, errors and panics in combination are not enumerated.",
  [FUT + "future/mod.rs", FUT + "future/map.rs", FUT + "future/flatten.rs", FUT + "future/fuse.rs", FUT + "future/catch_unwind.rs", FUT + "try_future/mod.rs", FUT + "try_future/try_flatten.rs", FUT + "poll_immediate.rs", FUT + "lazy.rs"],
  [("state machines", "future/future/*.rs, future/try_future/*.rs")],
  SEQ, NOTE)
SY = "schedule points on the atomics and locks involved (cfg futures_verif)"
prop("C16", "sync", "A shared future runs once and every handle gets its output",
  "The wrapped future of a shared future is polled by one handle at a time and never after completion, and every handle that is awaited gets a copy of its output, whichever handle did the work and however the others are cloned, dropped or abandoned in between. No handle waits for ever: a wakeup of the future always leads to progress of a remaining handle, and if the future panics, all handles report it. Peeking, weak handles and counts agree with the state, and future and output are dropped exactly once.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of polls, wakeups, clones and drops of any number of handles",
  "Who polls, who is turned away and who is dropped when the wakeup arrives is a race with few critical interleavings; tests hardly reach them.",
  [FUT + "future/shared.rs"],
  [("poll ownership state", "shared.rs poll, Notifier.state"), ("waker slab", "shared.rs record_waker, Notifier::wake_by_ref, Drop")],
  SCHED, NOTE_S, SY)
prop("C17", "sync", "Abort and remote handles stop or carry on exactly as told",
  "After an abort, an abortable future or stream makes no further progress and its task is woken to see it; without one it behaves like the wrapped task, and it reports being aborted only if it was. A remote handle that is awaited gets the output or the panic of its future, a dropped handle cancels the future and wakes the executor to drop it, a forgotten one lets it run to its end. Neither side ever waits for ever because the other one went away.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of polling, aborting, dropping, forgetting and completing",
  "The check-register-check races with abort or drop have critical interleavings that tests do not control.",
  ["futures-util/src/abortable.rs", FUT + "abortable.rs", FUT + "future/remote_handle.rs"],
  [("aborted flag and waker", "abortable.rs try_poll/abort"), ("oneshot and keep-running flag", "remote_handle.rs Remote::poll, RemoteHandle::forget")],
  SCHED, NOTE_S, SY)
prop("C18", "sync", "The async mutex excludes, and always wakes a waiter when free",
  "At most one guard of a mutex (borrowed, owned or mapped) exists at any time, and each holder sees everything the previous holders wrote. Whenever the mutex is free and tasks are waiting for it, at least one of them has been woken, also when waiting tasks give up at any moment. Trying to lock succeeds exactly when the mutex is free, and the value is returned or dropped exactly once.",
  ["schedules", "histories"], "all interleavings of locking, waiting, giving up and unlocking by any number of tasks",
  "Losing the single wakeup when a woken waiter gives up, or between the check and the registration, takes a specific interleaving.",
  ["futures-util/src/lock/mutex.rs"],
  [("lock word and waiter slab", "mutex.rs poll/unlock/remove_waker"), ("re-check after registration", "mutex.rs MutexLockFuture::poll, OwnedMutexLockFuture::poll")],
  SCHED, NOTE_S, SY)
prop("C19", "sync", "Split halves exclude each other and lose nothing",
  "The two halves of a two-party lock never hold it at once, a half that waits is woken when the other releases it, and both can be put together again to get the value back. The halves of a split stream-and-sink or reader-and-writer behave like the whole, used from two tasks in any interleaving: all items and bytes arrive in order, flushing and closing reach the object, and neither half blocks the other for ever. Foreign halves are refused and handed back unchanged.",
  ["schedules", "histories"], "all interleavings of the two halves' operations",
  "The lock is a hand-written atomic pointer protocol; each interleaving of locking, parking and unlocking has to be right, tests run one thread or a stress loop.",
  ["futures-util/src/lock/bilock.rs", STR + "stream/split.rs", "futures-util/src/io/split.rs"],
  [("atomic waker pointer", "bilock.rs poll_lock/unlock"), ("item slot of the sink half", "split.rs SplitSink")],
  SCHED, NOTE_S, SY)
EX = "schedule points on the thread pool's channel, task states, park and unpark; worker threads under control (cfg futures_verif)"
prop("C20", "exec", "Single-threaded executors run every task that can make progress",
  "Running a local pool completes all its tasks, including those spawned meanwhile; running until stalled, or for one task, returns only when one task completed or no task can make progress, and reports which. Blocking on a future or stream returns its value and never sleeps through a wakeup, from whichever thread and at whichever moment it comes, also if other code parks the thread. Tasks run only inside these calls, are never polled after completion, are dropped exactly once (also after a panic), and entering an executor inside another is refused and possible again afterwards.",
  ["histories", "schedules", "fault_sequences"], "all histories of spawns, wakes and executor calls, tasks that spawn, wake, nest and panic, and wakes from other threads at any point",
  "Tests run a few fixed task sets; whether progress is missed depends on the order of wakes, spawns during polling, yielding of the task set, and the race of waking with parking.",
  ["futures-executor/src/local_pool.rs", "futures-executor/src/enter.rs"],
  [("wakeup flag with park/unpark", "local_pool.rs ThreadNotify, run_executor"), ("incoming queue and pool loop", "local_pool.rs poll_pool, try_run_one, run_until_stalled"), ("nesting guard", "enter.rs enter, Drop for Enter")],
  SCHED, NOTE_S, EX)
prop("C21", "exec", "A thread pool runs every task to completion, one poll at a time",
  "Every future given to a thread pool is run to completion on its worker threads, whatever the order of polls and wakes: it is polled by one worker at a time, never after completion, and polled again when it was woken while being polled; what was done before a wake is seen by a poll that follows. A task that blocks its worker holds up no other task while another worker is free. Each worker runs its start hook before and its stop hook after all its tasks, exactly once. After the last handle is gone and all tasks are done, all workers stop; tasks are dropped exactly once, and handles deliver the outputs.",
  ["schedules", "histories"], "all interleavings of workers, spawns, wakes from any thread, handle drops and shutdown",
  "The test suite has two thread-pool tests; the poll/wake state machine and the shutdown have to be right in every interleaving.",
  ["futures-executor/src/thread_pool.rs", "futures-executor/src/unpark_mutex.rs"],
  [("task state machine", "unpark_mutex.rs notify/start_poll/wait/complete"), ("handle count and close messages", "thread_pool.rs Drop for ThreadPool, PoolState::work"), ("repoll loop", "thread_pool.rs Task::run")],
  SCHED, NOTE_S, EX)
prop("C30", "exec", "Wakers and future objects count references and drop exactly once",
  "A waker made from a shared wake object, owned or borrowed, wakes exactly that object as often as it is used and keeps it alive exactly as long as wakers exist: cloning, waking by value or by reference and dropping never leak or free it early. Type-erased future objects behave like the future they were made from, never move it, drop it exactly once if they own it and not at all if they borrow it. Spawning through any pointer to a spawner reaches that spawner, and a refused spawn reports shutdown and drops the future.",
  ["histories", "inputs"], "all histories of creating, cloning, borrowing, waking and dropping; all kinds of futures and pointers",
  "This is hand-written unsafe vtable code, where an imbalance of one reference is invisible to a test that does not count.",
  ["futures-task/src/waker.rs", "futures-task/src/waker_ref.rs", "futures-task/src/arc_wake.rs", "futures-task/src/future_obj.rs", "futures-task/src/spawn.rs", "futures-task/src/noop_waker.rs", "futures-util/src/task/spawn.rs"],
  [("waker vtable", "waker.rs clone_arc_raw/wake_arc_raw/drop_arc_raw"), ("borrowed waker", "waker_ref.rs WakerRef"), ("future object vtable", "future_obj.rs UnsafeFutureObj impls, Drop for LocalFutureObj")],
  SEQ + " plus generated cases under Miri", NOTE)

IO = "futures-util/src/io/"
prop("C22", "io", "A buffered reader is transparent: same bytes, same positions",
  "Reading through a buffered reader, in any mix of plain, vectored and peeking reads and seeks, gives exactly the bytes of the underlying reader at the logical position: nothing lost, repeated or reordered, and an end is reported only at the end. Errors are passed on without moving the position, and an operation that is given up while waiting moves nothing either. A seek lands where it would without the buffer and leaves the underlying reader exactly there; a relative seek within the buffered bytes keeps them.",
  ["inputs", "histories", "fault_sequences"], "all data, buffer sizes, operation sequences, short reads, errors and points of giving up",
  "The few tests use fixed data and a fixed script of reads; position bookkeeping has to be right for every mix of partial reads, seeks, extreme offsets and errors.",
  [IO + "buf_reader.rs", IO + "fill_buf.rs", IO + "seek.rs"],
  [("position and fill level of the buffer", "buf_reader.rs poll_read/poll_fill_buf/consume"), ("seek with remainder", "buf_reader.rs poll_seek/poll_seek_relative")],
  SEQ + " plus generated cases under Miri", NOTE)
prop("C23", "io", "Buffered writers lose, repeat and reorder no byte",
  "What a buffered or line-buffered writer accepted reaches the underlying writer in order and exactly once, whatever short writes, errors, waits and given-up operations occur, and retrying after an error continues where it stopped. After a successful flush or close everything accepted is there and the flush or close has been passed on; a seek first writes everything out. The buffer never exceeds its capacity, and a line-buffered writer does not hold back complete lines.",
  ["inputs", "histories", "fault_sequences"], "all sequences of writes, vectored writes, flushes, seeks and closes, buffer sizes and failure points",
  "A byte is lost or doubled only if a short write, a wait or an error hits a particular moment of draining the buffer.",
  [IO + "buf_writer.rs", IO + "line_writer.rs"],
  [("drain with progress mark", "buf_writer.rs flush_buf"), ("bypass of the buffer", "buf_writer.rs poll_write/poll_write_vectored"), ("newline handling", "line_writer.rs poll_write/poll_write_vectored")],
  SEQ + " plus generated cases under Miri", NOTE)
prop("C24", "io", "I/O helpers transfer exactly the bytes they say, or report the error",
  "Reading exactly, to the end, until a delimiter, by line or into strings, limiting, chaining and copying readers, and writing everything out, transfer exactly the bytes the blocking equivalents of the standard library would, however the reads and writes are split up and interrupted by waits. Errors, early ends and writers that accept nothing are always reported, an invalid line or text never ends up in a string, and a limit is never exceeded. In-memory readers and writers and wrapped blocking objects behave like the standard library's, and aborting a copy stops it.",
  ["inputs", "histories", "fault_sequences"], "all data (including invalid text), compositions of readers, ways of splitting reads and writes, errors and operations",
  "Tests feed a handful of fixed chunkings; correctness depends on where chunk borders, delimiters, character borders, waits and errors fall.",
  [IO + "read_exact.rs", IO + "read_to_end.rs", IO + "read_to_string.rs", IO + "read_until.rs", IO + "read_line.rs", IO + "lines.rs", IO + "take.rs", IO + "chain.rs", IO + "copy.rs", IO + "copy_buf.rs", IO + "copy_buf_abortable.rs", IO + "write_all.rs", IO + "write_all_vectored.rs", IO + "cursor.rs", IO + "allow_std.rs", IO + "window.rs", "futures-io/src/lib.rs"],
  [("string and byte buffer swap", "read_line.rs, lines.rs, read_to_string.rs"), ("growing buffer with guard", "read_to_end.rs"), ("copy loop", "copy_buf.rs"), ("pointer forwarding", "futures-io/src/lib.rs")],
  SEQ + " plus generated cases under Miri", NOTE)
prop("C26", "io", "Streams and sinks of byte blocks convert to readers and writers exactly",
  "Reading from a stream of byte blocks gives the blocks' bytes in order, with empty blocks skipped, an error reported once after the bytes before it, and a stable end without polling the stream again. Sending blocks into a writer used as a sink writes exactly their bytes in order, keeps what is unfinished across errors and waits, and has everything written, flushed or closed when it says so. A writer that accepts nothing is reported rather than retried for ever.",
  ["inputs", "histories", "fault_sequences"], "all sequences of blocks, waits, errors and operations",
  "Tests use a few fixed blocks; partial consumption, empty blocks, errors and waits in combination are not enumerated.",
  ["futures-util/src/stream/try_stream/into_async_read.rs", IO + "into_sink.rs"],
  [("current block and offset", "into_async_read.rs ReadState, into_sink.rs poll_flush_buffer")],
  SEQ, NOTE)
SI = "futures-util/src/sink/"
prop("C25", "sink", "Sink adaptors pass on every accepted item once, in order, and flush it",
  "Items accepted by any composition of sink adaptors (mapping, one-to-many mapping, buffering, fan-out, error mapping, folding) reach every sink behind it exactly once, in order and mapped as specified, and only when that sink is ready. A flush or close that succeeds has brought everything accepted through and flushed or closed every sink; an error is reported exactly once. Buffering takes exactly its capacity while the inner sink is blocked, and sending a whole stream, by forwarding or otherwise, flushes what was sent whenever the stream waits, and at its end; no waiting sender is left without a wakeup.",
  ["inputs", "histories", "fault_sequences"], "all compositions, histories of ready/send/flush/close calls (also given up midway), waits and errors",
  "Tests check single adaptors in fixed scripts; items are lost or doubled when waits, errors and given-up operations fall between the phases of a send.",
  [SI + "with.rs", SI + "with_flat_map.rs", SI + "buffer.rs", SI + "fanout.rs", SI + "send_all.rs", SI + "send.rs", SI + "feed.rs", SI + "unfold.rs", SI + "map_err.rs", STR + "stream/forward.rs", STR + "try_stream/try_forward.rs", "futures-sink/src/lib.rs"],
  [("mapping future in flight", "with.rs With::poll"), ("held-back item", "with_flat_map.rs try_empty_stream, send_all.rs try_start_send, forward.rs poll"), ("buffer draining", "buffer.rs try_empty_buffer")],
  SEQ + " plus generated cases under Miri", NOTE)
CO = "futures-util/src/compat/"
prop("C31", "compat", "Converting to and from futures 0.1 changes nothing but the types",
  "A future, stream, sink, reader, writer or executor converted from the 0.1 traits to the current ones or back, through any number of layers, gives the same values, items, errors, bytes, flushes and closes in the same order as the object itself, and the rules of the traits are kept on both sides (no item or flush after closing has begun, no start without readiness). Every wakeup reaches the task that polled last, through all layers. Items handed to a converted sink are sent exactly once, and wakers and objects are dropped exactly once, also when the conversion is dropped midway.",
  ["inputs", "histories", "fault_sequences"], "all objects, numbers of layers, waits, errors, changes of the waker and points of dropping",
  "There are a handful of compat tests without a change of task or a busy sink; the conversion keeps its own item and hand-made wakers.",
  [CO + "compat01as03.rs", CO + "compat03as01.rs", CO + "executor.rs"],
  [("item kept by the sink conversion, start of closing", "compat01as03.rs Compat01As03Sink"), ("hand-made wakers", "compat01as03.rs NotifyWaker, compat03as01.rs Current::as_waker")],
  SEQ, NOTE + " Not run under Miri: futures 0.1 itself is rejected there.")
prop("C15", "tree", "Compositions in one task make progress and give the determined result",
  "Combinators, macros, joins, selections, sets of futures, channels, sink adaptors, locks, shared, split and remote-controlled parts can be nested at will in one task: whenever something a part waits for has happened, the task has been woken by the waker it last polled with, and as long as every such event happens the whole finishes, with exactly the result that the meaning of its parts determines, whatever the order of the events. No part is polled after it finished.",
  ["inputs", "schedules", "histories"], "all compositions (up to 5 levels deep) and all orders of the events they wait for",
  "Tests exercise parts alone; wakers replaced, wrapped or shared by one part break another only in combination and with particular orders of events.",
  [FUT, STR + "stream/", STR + "try_stream/", STR + "futures_unordered/", "futures-util/src/sink/", "futures-util/src/lock/", "futures-channel/src/", "futures-macro/src/"],
  [("wakers handed on by every part", "FuturesUnordered, FlattenUnordered, Shared, BiLock, Mutex, mpsc park/unpark"), ("results combined", "join_all.rs, select_all.rs, futures_ordered.rs")],
  SEQ + " plus generated cases under Miri", "One task drives the whole, so events come between polls and during them, not in parallel; parallel histories are checked by the properties of the parts.")
prop("C27", "tree", "Drops and panics at any point leak nothing, drop nothing twice, strand nothing",
  "A composition of combinators, sets, channels, sinks, locks and shared parts in one task may be dropped after any step, and any of its parts or closures may panic at any step. Either way every part, value and waker is dropped exactly once, no part is polled again after it finished or panicked, events that come later do no harm, and the rest of the composition, where the panic was caught or passed on inside it, is neither broken nor left waiting for ever.",
  ["inputs", "histories", "fault_sequences"], "all compositions (up to 5 levels deep), points of dropping and panicking parts",
  "A leak, a double drop or a use after completion shows only if the drop or the panic falls between two particular steps; tests have no panicking parts and count no drops.",
  [FUT, STR + "stream/", STR + "try_stream/", STR + "futures_unordered/", "futures-util/src/sink/", "futures-util/src/lock/", "futures-channel/src/"],
  [("bomb guards and drop implementations", "futures_unordered/mod.rs Bomb, flatten_unordered.rs PollStateBomb, shared.rs Reset, mutex.rs Drop"), ("catching", "catch_unwind.rs")],
  SEQ + " plus generated cases under Miri", "One task drives the whole; drops and panics in parallel are checked by the properties of the parts.")
T = "futures-test/src/"
prop("C28", "tst", "Test helpers alter exactly what they say and report exactly what happened",
  "An object wrapped for testing gives the same results for the same calls as the object itself: the interleaving wrapper and the wait-once wrapper only add a wait that wakes the task before passing a call on, the limiting wrapper lets no call move more bytes than its limit, and the closing wrapper refuses use after a successful close and only then reports being closed. The move detector raises an alarm exactly when a polled object is used or dropped at another place, and stays quiet while unwinding. Counting and panicking wakers count and report every wake, recording spawners keep every future, and stream assertions hold exactly in the state they name.",
  ["inputs", "histories"], "all objects, histories of calls and answers, moves and wakes",
  "futures-test has a handful of unit tests; wrappers that forward the wrong call or skip a step silently weaken every test written with them.",
  [T + "interleave_pending.rs", T + "assert_unmoved.rs", T + "track_closed.rs", T + "io/limited.rs", T + "future/pending_once.rs", T + "task/", T + "assert.rs"],
  [("pended flag", "interleave_pending.rs poll_with"), ("address of the first poll", "assert_unmoved.rs poll_with, drop"), ("closed flag", "track_closed.rs")],
  SEQ + " plus generated cases under Miri", "The waits added by the interleaving wrapper are taken from its documentation: one before each call that completes.")
prop("C32", "tst", "Pointers and wrappers pass calls on unchanged and give the object back",
  "Calling a future, stream, sink, reader, writer or buffered reader through a mutable reference, a box, a pin, a boxed trait object, a two-way alternative or an adaptor that does not concern itself with that side (reading through a buffered writer, writing through a buffered reader, sending through an adaptor of the stream) calls exactly this method of the wrapped object once, with the same arguments and the caller's waker, and returns its answer; size bounds and termination flags are the object's. Provided vectored reads and writes use the first buffer that is not empty. Accessors always lead to the wrapped object itself, in the order given where there are two, and taking a wrapper apart hands it back unchanged.",
  ["inputs", "histories"], "all kinds of pointers and wrappers, histories of calls, arguments and answers",
  "These implementations are written out by hand or by macro for each trait and have almost no tests; a call forwarded to the wrong method, side or with fewer arguments shows only with an object that tells the difference.",
  ["futures-core/src/future.rs", "futures-core/src/stream.rs", "futures-sink/src/lib.rs", "futures-io/src/lib.rs", "futures-util/src/future/either.rs", "futures-util/src/lib.rs", "futures-util/src/io/buf_reader.rs", "futures-util/src/io/buf_writer.rs", STR + "try_stream/into_async_read.rs"],
  [("implementations for pointers", "futures-core, futures-sink, futures-io lib.rs"), ("both sides of an alternative", "either.rs"), ("delegating macros", "futures-util/src/lib.rs delegate_*")],
  SEQ + " plus generated cases under Miri", NOTE)
