#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Stream output to a faulty device: exact prefix arrives, failure is reported",
  "When formatted or raw output is written through an output stream whose device may accept only part of a write, reject it or fail to flush, the device receives the program's characters in order, with none duplicated, reordered or invented, and of each block a prefix. While the stream reports no error, everything written has been accepted exactly once; an output that was not accepted in full, or a flush the device rejected, leaves the stream in an error state. Once the device has recovered and the error is cleared, output works again.",
  ["inputs", "fault_sequences", "histories"],
  "every sequence of formatted/unformatted writes, widths, bases and flushes, and every pattern of short writes, refusals, I/O errors and failed flushes at the device",
  "ostream tests write to a string buffer that never refuses a character; no test makes a device short-write or fail.",
  ["src/estd/ostream.h", "src/estd/internal/ostream.h", "src/estd/internal/ostream_basic_string.hpp", "src/estd/internal/ostream/integer.h", "src/estd/internal/locale/num_put.h", "src/estd/port/posix/streambuf.h", "src/estd/port/arduino/ostream.h", "src/estd/port/rpi/pico/streambuf.h", "src/estd/internal/ios.h", "src/estd/internal/ios_base.h", "src/estd/streambuf.h"],
  [("insertion operators set badbit on refused output", "src/estd/internal/ostream.h"), ("posix FILE streambuf", "src/estd/port/posix/streambuf.h")],
  [("stream state", "good/eof/fail/bad flags", "src/estd/internal/ios_base.h")],
  ["bytes received by the device", "rdstate after every operation"])

p("C02", "Buffered output adapters lose and duplicate nothing when the drain stalls",
  "Output written through a buffering adapter reaches the drain as exactly the characters the adapter accepted, in order and once each, however the drain stalls, takes only part of what it is offered, or refuses and later recovers. The adapter reports exactly how many characters it accepted, never claims space it does not have and never touches memory outside its buffer. Once the drain accepts again, flushing delivers everything still held, and flushing an empty adapter succeeds.",
  ["inputs", "fault_sequences", "histories"],
  "every interleaving of single-character, block and flush calls with every pattern of drain stalls and short drains, for every buffer size and character width",
  "the buffered adapters have two or three tests, all with a drain that takes everything.",
  ["src/estd/internal/impl/streambuf/buffer.h", "src/estd/internal/impl/streambuf/string.h", "src/estd/internal/impl/streambuf/bipbuf.h", "src/estd/streambuf.h", "src/estd/sstream.h", "src/estd/internal/streambuf.h", "src/estd/internal/bip/buffer.h"],
  [("flush policy and overflow handling", "src/estd/internal/impl/streambuf/buffer.h"), ("bipbuffer-backed streambuf", "src/estd/internal/impl/streambuf/bipbuf.h")],
  [("buffered characters", "accepted but not yet drained", "src/estd/internal/impl/streambuf/buffer.h")],
  ["characters seen by the drain", "return values of the write and flush calls"])

p("C03", "Output into fixed memory stops at the end, keeps the prefix and reports it",
  "Writing through a stream into fixed-size memory (a caller's span or a fixed-capacity string) stores exactly the longest prefix of the output that fits and nothing beyond the end, whatever mix of single characters, blocks, numbers and repositioning is used. Each write reports truthfully how much it stored, and an output that did not fit leaves the stream failed. Repositioning is confined to the memory.",
  ["inputs", "histories"],
  "every sequence of writes, formatted insertions and seeks, with exhaustion arriving at every possible point, for every capacity and character width",
  "the tests write short text that fits.",
  ["src/estd/internal/impl/streambuf/span.h", "src/estd/internal/impl/streambuf/pos.h", "src/estd/internal/impl/streambuf/string.h", "src/estd/sstream.h", "src/estd/ostream.h"],
  [("bounded span put area", "src/estd/internal/impl/streambuf/span.h"), ("string streambuf appends through the string's fixed allocator", "src/estd/internal/impl/streambuf/string.h")],
  [("put position", "next character to be stored", "src/estd/internal/impl/streambuf/pos.h")],
  ["the memory including guard bytes around it", "return values and stream state"])

p("C04", "Stream input yields every character once, in order, with a truthful end",
  "Reading a stream by any mix of peeking, single-character, block, line and skipping reads yields each source character exactly once and in order, for every way the source splits, delays or withholds data. A count of characters read or available is never more than was really delivered or is really there, lines and blocks never exceed the caller's buffer, and repositioning never leaves the source's bounds. A read that comes up short because the source has nothing more at that moment is reported in the stream state and a satisfied one is not, and reading resumes where it stopped once more input arrives and the state is cleared.",
  ["inputs", "fault_sequences", "histories"],
  "every mix of read operations against every chunking, short read, stall, early end and I/O error of the source (memory, string, ring, file or caller-supplied device)",
  "istream tests read complete literals from memory; nothing splits, stalls or fails the source.",
  ["src/estd/istream.h", "src/estd/internal/istream.h", "src/estd/internal/istream_runtimearray.hpp", "src/estd/streambuf.h", "src/estd/internal/impl/streambuf/span.h", "src/estd/internal/impl/streambuf/string.h", "src/estd/internal/impl/streambuf/bipbuf.h", "src/estd/internal/impl/streambuf/pos.h", "src/estd/port/posix/streambuf.h"],
  [("streambuf get-area protocol", "src/estd/streambuf.h"), ("istream unformatted input", "src/estd/internal/istream.h")],
  [("get position", "next unread character", "src/estd/internal/impl/streambuf/pos.h")],
  ["values returned by reads", "gcount/state", "position of the source"])

p("C05", "Parsing from a stream does not depend on how the input is chunked",
  "The value, the stream state and the number of characters consumed when a number, word or line is extracted from a blocking stream depend only on the characters, not on how they are split in time, how often the source stalls in between, or how small the internal buffer is. A blocking extraction finishes once its characters (or the end of input) have arrived and never returns early, and out-of-range integers and malformed numbers are reported as failures and are never delivered as values.",
  ["inputs", "schedules", "histories"],
  "every text, every split of it into arrivals and stalls, every extraction type and base",
  "the extraction tests run over complete in-memory text.",
  ["src/estd/internal/istream.h", "src/estd/istream.h", "src/estd/internal/locale/num_get.h", "src/estd/internal/locale/iterated/num_get.h", "src/estd/internal/istreambuf_iterator.h", "src/estd/internal/ios_policy.h", "src/estd/internal/locale/cbase.h"],
  [("blocking policy waits on the source", "src/estd/internal/ios_policy.h"), ("incremental number parser", "src/estd/internal/locale/iterated/num_get.h")],
  [("parser state", "partially accumulated number", "src/estd/internal/locale/iterated/num_get.h")],
  ["extracted values and stream state", "characters left in the source"])

p("C06", "Byte ring: a gap-free FIFO between producer and consumer",
  "Bytes offered or reserved-and-committed to the ring buffer come out exactly once, in order and unaltered, however producer and consumer calls, partial reads, peeks and pending reservations interleave. Used and free space reported are never more than what can really be read or written, a refused operation changes nothing, and no operation touches memory outside the ring. As much as a read has freed can be written at once, and the whole capacity once the ring has been drained.",
  ["schedules", "inputs", "histories"],
  "every interleaving of offer, reserve, partial commit, peek, poll and query from a producer and a consumer, for every capacity and wrap position",
  "the tests push one or two blocks; wrap-around with a pending reservation is never reached.",
  ["src/estd/ext/willemt/bipbuffer/bipbuffer.c", "src/estd/ext/willemt/bipbuffer/bipbuffer.h", "src/estd/internal/bip/buffer.h", "src/estd/internal/impl/streambuf/bipbuf.h"],
  [("two-region circular buffer", "src/estd/ext/willemt/bipbuffer/bipbuffer.c"), ("reservation bookkeeping", "src/estd/internal/bip/buffer.h")],
  [("regions A and B", "start/end of readable data", "src/estd/ext/willemt/bipbuffer/bipbuffer.c")],
  ["bytes returned by peek/poll", "used/free queries"])

p("C07", "RTOS message queues deliver every accepted message once, in order",
  "Every message accepted by an RTOS queue is received exactly once, whole and in the order accepted, whichever tasks and interrupts send and receive and however they are pre-empted; a send or receive that reports failure has transferred nothing. Waits end no later than their timeout and untimed waits only with success, the queue never holds more than its capacity, and destroying a queue releases its kernel object exactly once while its storage is still alive.",
  ["schedules", "fault_sequences", "histories"],
  "every pre-emptive schedule of sender and receiver tasks and interrupts, every timeout and tick alignment, dynamic and static storage",
  "the RTOS port is not compiled by the tests at all.",
  ["src/estd/port/freertos/queue.h", "src/estd/port/freertos/wrapper/queue.h", "src/estd/port/freertos/chrono.h"],
  [("typed wrapper over kernel queue", "src/estd/port/freertos/queue.h")],
  [("kernel queue", "messages in flight", "simulated kernel")],
  ["send/receive results", "kernel object lifetime"])

p("C08", "Locks exclude, and a scoped lock releases exactly what it acquired",
  "While one task holds a mutex no other task can acquire it, in any schedule; a recursive mutex admits its holder again and becomes free only after as many unlocks as locks. A lock attempt reports success exactly when the lock was taken, and one without a timeout does not wait. A scope guard or movable-ownership lock releases exactly the locks it holds, exactly once and never one it failed to get, on normal exit, early return and exception alike, so that no task is left waiting for ever and no unowned lock is released.",
  ["schedules", "fault_sequences", "histories"],
  "every pre-emptive schedule of tasks locking, trying, timing out, throwing and destroying guards, with dynamic and static storage",
  "tests only instantiate the guard types over a dummy; there is no scheduler.",
  ["src/estd/mutex.h", "src/estd/port/freertos/mutex.h", "src/estd/port/freertos/wrapper/semphr.h", "src/estd/internal/value_evaporator.h", "src/estd/port/freertos/semaphore.h"],
  [("scoped lock", "src/estd/mutex.h"), ("kernel mutex wrapper", "src/estd/port/freertos/mutex.h")],
  [("ownership", "task that holds the mutex", "simulated kernel")],
  ["critical-section occupancy", "result of try-lock", "kernel misuse reports"])

p("C09", "Semaphores never create or lose permits",
  "At every moment of every schedule the permits of a counting or binary semaphore equal the initial count plus effective releases minus successful acquisitions, and lie between zero and the declared maximum. An acquisition that reports success took exactly one permit and one that reports failure took none; an attempt without a timeout does not wait, an untimed acquisition returns only with a permit, and a released permit lets a waiting task proceed. Destroying a semaphore releases its kernel object exactly once while its storage is still alive.",
  ["schedules", "histories", "fault_sequences"],
  "every pre-emptive schedule of acquiring and releasing tasks and interrupts, all bounds, initial counts and timeouts",
  "the RTOS port is not compiled by the tests.",
  ["src/estd/port/freertos/semaphore.h", "src/estd/port/freertos/wrapper/semphr.h", "src/estd/semaphore.h"],
  [("semaphore wrapper", "src/estd/port/freertos/semaphore.h")],
  [("permit count", "available permits", "simulated kernel")],
  ["acquire results", "permit count after quiescence"])

p("C10", "Timed waits and sleeps honour their deadline, also past due or across wrap",
  "A timed lock, permit acquisition, sleep or other timed wait never gives up or wakes before its full duration or deadline has passed on the port's own clock, and does so no later than one tick after it (apart from time during which the task was ready but not run). A deadline that has already passed means a single immediate attempt, never a long wait. This holds for every duration unit, including those finer than a tick, and when the tick counter wraps during the wait (deadlines on the tick clock lying within half its range). Adding, subtracting, scaling and comparing durations and moments, in any mixture of units, gives the exact result wherever it can be represented, so a deadline that is worked out is the one that is met.",
  ["schedules", "inputs", "configurations"],
  "every duration/deadline and unit, every phase of the tick, start ticks around the 32-bit wrap, every contention pattern",
  "no test has a clock it can control; the RTOS, Arduino and Pico ports are not compiled.",
  ["src/estd/port/freertos/thread.h", "src/estd/port/freertos/mutex.h", "src/estd/port/freertos/semaphore.h", "src/estd/port/freertos/chrono.h", "src/estd/port/std/thread.h", "src/estd/port/arduino/thread.h", "src/estd/port/arduino/chrono.h", "src/estd/port/rpi/pico/chrono.h", "src/estd/internal/chrono/duration.h", "src/estd/internal/chrono/time_point.h"],
  [("duration to tick conversion", "src/estd/port/freertos/chrono.h"), ("deadline to tick conversion", "src/estd/port/freertos/semaphore.h")],
  [("tick counter", "simulated kernel time", "simulated kernel")],
  ["simulated time at call and return", "result of the wait"])

p("C11", "Event flags and task notifications: no wake-up is lost or invented",
  "A task waiting for event flags wakes exactly when its condition (any or all of its bits) holds or its time is up, the value it gets tells which, and bits are consumed exactly when it asked for that. A rendezvous releases all participants only after every one of them arrived. A notification sent to a task by another task or an interrupt is delivered to that task and slot, with its value combined as requested, whether it comes before or during the wait.",
  ["schedules", "histories"],
  "every pre-emptive schedule of setters, clearers, waiters, rendezvous participants, notifiers and interrupts",
  "the RTOS port is not compiled by the tests.",
  ["src/estd/port/freertos/event_groups.h", "src/estd/port/freertos/wrapper/event_groups.h", "src/estd/port/freertos/wrapper/task.h"],
  [("event group wrapper", "src/estd/port/freertos/event_groups.h"), ("task wrapper", "src/estd/port/freertos/wrapper/task.h")],
  [("event bits", "currently set flags", "simulated kernel")],
  ["returned bits", "waiter wake-up time"])

p("C12", "Software timers fire when due, only while active, never after destruction",
  "An active timer runs its callback once per period (or once, when not reloading) no earlier than due, a stopped or never-started one does not run, and starting, restarting or changing the period takes effect from that moment. Start, stop, reset and period changes report failure exactly when the request could not be queued within its wait. After a timer's destructor returns, its callback does not run again and its storage is no longer used.",
  ["schedules", "histories", "fault_sequences"],
  "every schedule of timer commands from tasks and interrupts, command-queue exhaustion, slow timer service and tick wrap",
  "the RTOS port is not compiled by the tests; the source itself says the static timer crashed when tried.",
  ["src/estd/port/freertos/timer.h", "src/estd/port/freertos/wrapper/timer.h"],
  [("timer wrapper", "src/estd/port/freertos/timer.h")],
  [("timer list and command queue", "pending commands and due times", "simulated kernel")],
  ["callback times", "results of timer commands", "kernel reports of dead storage"])

p("C13", "Shared ownership destroys the object once, when the last owner goes",
  "Under any interleaving of clients copying, assigning (also to itself), moving, resetting and dropping shared references to a value, the value is constructed once, destroyed exactly once and exactly when its last owner lets go, and is intact for as long as any owner exists. The reported owner count equals the number of owners. An owner that is moved from, reset or assigned away gives up exactly its own share, and a value whose construction fails has no owner and is never destroyed.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of reference operations by several clients, including throwing constructors and self/alias assignment",
  "tests exercise one or two references in a fixed order.",
  ["src/estd/memory.h", "src/estd/internal/linked_ref.h"],
  [("reference counting / linked ownership", "src/estd/memory.h")],
  [("owner count", "live references", "src/estd/memory.h")],
  ["constructor/destructor counts of the value", "use_count"])

p("C14", "Optional, variant and expected stay balanced when construction fails",
  "Through any history of engaging, assigning, switching alternatives, moving, visiting and resetting of optional, variant and expected objects, in which any construction or assignment of a contained value may throw, every contained value is destroyed exactly once and never used before construction or after destruction. What the object reports it contains is always what it really contains, and accessing an absent value is reported and does not hand out garbage. A failed construction never leaves the object claiming a value it does not have.",
  ["histories", "fault_sequences"],
  "every history of operations with a construction/assignment failure injected at any point",
  "tests use values whose constructors never throw.",
  ["src/estd/optional.h", "src/estd/internal/optional.h", "src/estd/variant.h", "src/estd/internal/variant.h", "src/estd/internal/variant/storage.h", "src/estd/expected.h", "src/estd/internal/expected.h"],
  [("discriminated storage", "src/estd/internal/variant/storage.h")],
  [("index/engaged flag", "which alternative is alive", "src/estd/internal/variant.h")],
  ["construction/destruction ledger", "has_value/index/value results"])

p("C15", "Vectors and strings keep their contents when memory runs out or moves",
  "Through any history of appends, inserts, erases, resizes, assignments, searches and clears, a vector or string holds exactly the sequence a reference sequence would hold (also where what is added or assigned is one of its own elements or a part of it), while its allocator relocates the memory on every request, refuses any request or has a fixed size; one created from or over given text starts with exactly that text, or (where it does not fit) with none. An operation that cannot get the memory it needs changes nothing, writes nowhere else and loses no block; elements that are removed are destroyed exactly once, and elements that stay are intact. Memory handed out by a relocating allocator is accessed only while locked and is unlocked afterwards.",
  ["histories", "fault_sequences", "configurations"],
  "every history of container operations with allocation failure, relocation or exhaustion at any request, over heap-like, handle-based, fixed and null-terminated storage",
  "container tests never exhaust or move memory.",
  ["src/estd/vector.h", "src/estd/string.h", "src/estd/internal/dynamic_array.h", "src/estd/internal/impl/dynamic_array.h", "src/estd/internal/string.h", "src/estd/allocators/fixed.h", "src/estd/allocators/handle_desc.h", "src/estd/internal/impl/handle_desc.h", "src/estd/traits/allocator_traits.h", "src/estd/internal/runtime_array.h"],
  [("handle-based lock/unlock access", "src/estd/internal/runtime_array.h"), ("growth policy", "src/estd/internal/impl/dynamic_array.h")],
  [("allocated size and used size", "", "src/estd/internal/impl/dynamic_array.h")],
  ["contents", "allocator ledger", "construction/destruction ledger"])

p("C16", "Function objects call the target they hold and destroy it exactly once",
  "A call through a function object, inline function object, bound method or view of a callable model runs exactly the target it was last given, once, with that target's own state and the caller's arguments, and hands back its result or its exception. Through any history of creation, copying, moving, reassignment (also to itself) and destruction in which targets may throw and memory may run out, each owned target is destroyed exactly once, a copy has a target of its own and never depends on the original, a moved-from object is empty, and a failed assignment leaves the old target in place. Functors handed over by name are left unaltered, and a one-shot model destroys its target in its only call.",
  ["histories", "fault_sequences"],
  "every history of operations on several function objects with a failing allocation, target construction or call at any point",
  "the tests call a handful of function objects once or twice and never copy one, throw or run out of memory.",
  ["src/estd/functional.h", "src/estd/internal/functional.h", "src/estd/internal/impl/functional.h", "src/estd/internal/impl/functional/fnptr1.h", "src/estd/internal/impl/functional/fnptr2.h", "src/estd/internal/impl/functional/virtual.h"],
  [("owning function object", "src/estd/functional.h"), ("models of callables", "src/estd/internal/impl/functional/fnptr2.h"), ("bound methods", "src/estd/internal/functional.h")],
  [("model pointer", "target called by this object", "src/estd/internal/functional.h")],
  ["which target ran, its arguments and result", "construction/destruction ledger", "memory ledger"])

p("C17", "Fixed-capacity queues and stacks behave as bounded FIFO/LIFO when full",
  "A fixed-capacity queue, double-ended queue or stack shared by interleaved producers and consumers returns exactly the elements accepted, in its order, once each, through every wrap-around and refill. A push onto a full container is refused and reported where the interface can report it, changes nothing and touches no other memory, and size, empty state and iteration are always truthful. An accepted element lives exactly until it is removed or (in queues) its container goes, a moved container takes its elements along, and an element whose construction fails was never held.",
  ["histories", "schedules", "inputs"],
  "every interleaving of pushes, pops, emplacements, iteration, copies and clears at both ends, for every capacity, with exhaustion at any point",
  "tests push a few elements into containers that never fill or wrap more than once.",
  ["src/estd/queue.h", "src/estd/deque.h", "src/estd/stack.h", "src/estd/vector.h", "src/estd/array.h"],
  [("circular indices", "src/estd/queue.h")],
  [("front/back iterators and empty flag", "", "src/estd/queue.h")],
  ["values popped", "construction/destruction ledger"])

p("C18", "A priority queue always yields the best element and loses none",
  "Under any interleaving of pushes, pops, emplacements and removals by value or predicate, the top of a priority queue is never worse than any element it holds, and its contents are exactly the elements accepted and not yet popped or removed. Pushing onto a full fixed-capacity queue loses and alters nothing already held. Removing the last, only or a non-existent element is safe.",
  ["histories", "inputs"],
  "every interleaving of operations with ties, custom orderings and capacity exhaustion",
  "a handful of fixed sequences.",
  ["src/estd/queue.h", "src/estd/internal/priority_queue.h", "src/estd/internal/algorithm/heap.h"],
  [("binary heap", "src/estd/internal/algorithm/heap.h")],
  [("heap array", "", "src/estd/internal/priority_queue.h")],
  ["top/pop results", "contents"])

p("C19", "Fixed-size hash maps and sets find exactly what was inserted and not erased",
  "Through any history of insertions, lookups, updates, erasures, incremental garbage-collection steps, iteration and exhaustion, a fixed-size hash map or set contains exactly the keys a reference map would, each once (unless a duplicate was expressly permitted) and with its latest value, for every hash distribution. An insertion that reports success is findable, one that fails (duplicate, no slot left for its bucket, or a constructor that throws) changes nothing, and slots freed by erasure can be used again. Every mapped value that is erased, replaced or cleared is destroyed exactly once, and map elements stay where they are except when clean-up moves them.",
  ["histories", "inputs", "schedules"],
  "every history with colliding hashes, holes left by erasure, incremental clean-up at any point, failing constructors, and a full table",
  "tests insert and erase a few keys with the identity hash.",
  ["src/estd/unordered_map.h", "src/estd/unordered_set.h", "src/estd/internal/container/unordered_map.h", "src/estd/internal/container/unordered/base.h", "src/estd/internal/container/unordered/traits.h"],
  [("open-addressed buckets with sparse markers and incremental gc", "src/estd/internal/container/unordered/base.h")],
  [("slot metadata", "empty, occupied or sparse", "src/estd/internal/container/unordered/traits.h")],
  ["find/contains/insert results", "iteration"])

p("C20", "Fixed memory pools never hand out a block twice and recover every block",
  "Blocks handed out by a fixed pool never overlap one another or lie outside the pool, are not handed out again until returned, and once all are returned the whole capacity is available again. Exhaustion is reported and harms no block in use. An object whose construction fails gives its block back.",
  ["histories", "fault_sequences"],
  "every interleaving of allocations, releases, exhaustion and throwing constructors by several clients",
  "tests allocate two or three blocks.",
  ["src/estd/internal/memory/v1/pool.h", "src/estd/internal/memory/pool.h", "src/estd/exp/memory/memory_pool.h"],
  [("free list inside the pool", "src/estd/internal/memory/v1/pool.h")],
  [("free list", "", "src/estd/internal/memory/v1/pool.h")],
  ["addresses handed out", "free count"])

p("C21", "Linked lists keep exactly their members in order while edited concurrently",
  "While several cooperative clients insert, erase, replace and walk a linked list in any interleaving, its traversal from the front visits exactly the current members, in order and once each, and front, back and emptiness agree with that. A walker positioned on a member that is not removed can continue. Removal by value or predicate removes exactly the matching members, however they are grouped, and a list that allocates its nodes destroys and frees each removed one exactly once.",
  ["histories", "schedules"],
  "every interleaving of list edits and walkers, including edits at the head, tail and next to a walker",
  "tests use two or three elements in a fixed order.",
  ["src/estd/forward_list.h", "src/estd/list.h", "src/estd/internal/list/intrusive_forward.h", "src/estd/internal/list_node.h", "src/estd/traits/list_node.h", "src/estd/iterators/list.h", "src/estd/internal/list/intrusive.h"],
  [("link maintenance", "src/estd/forward_list.h")],
  [("next/previous links", "", "src/estd/internal/list_node.h")],
  ["traversal", "front/back/empty"])

p("C22", "Values sent through streams over a slow bounded link arrive as the same values",
  "Integers of every type and base, words, lines, characters and raw blocks written to an output stream and read, with the same sequence of types and bases, from an input stream at the other end of a link come out as the same values, in order, with no stream reporting an error it did not have and the end reported only after the last. That holds however the link splits, delays, holds back or refuses characters, whatever buffered adapters lie on the way and however writer, relay and reader are scheduled. Once the link moves again, everything written and flushed arrives.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of writer, relay and reader with every split, stall and partial acceptance of the link, for every combination of output and input buffer",
  "tests write to or read from one in-memory buffer, never both ends with a link between them.",
  ["src/estd/ostream.h", "src/estd/istream.h", "src/estd/internal/ostream.h", "src/estd/internal/istream.h", "src/estd/internal/impl/streambuf/bipbuf.h", "src/estd/internal/impl/streambuf/buffer.h", "src/estd/internal/streambuf.h", "src/estd/streambuf.h", "src/estd/internal/locale/num_put.h", "src/estd/internal/locale/num_get.h", "src/estd/port/arduino/streambuf.h"],
  [("output side", "src/estd/internal/ostream.h"), ("input side", "src/estd/internal/istream.h"), ("buffered adapters", "src/estd/internal/impl/streambuf/bipbuf.h")],
  [("characters accepted and not yet delivered", "", "src/estd/internal/impl/streambuf/buffer.h"), ("characters buffered and not yet read", "", "src/estd/internal/impl/streambuf/bipbuf.h")],
  ["values read at the far end", "stream states"])

p("C23", "A notification reaches every registered observer exactly once, in order",
  "Every observer of a subject that takes a notification receives it exactly once, in order of registration, unaltered and with its context; observers given by reference are the caller's own objects, the others the subject's own, and it makes no difference whether they are reached directly, through a proxy or through an interface. One that does not take a kind of notification is not called for it and does not keep the others from it. This also holds when observers notify the same or another subject meanwhile, and when one throws: the exception reaches the notifier, the observers after it are not told, and the subject works as before afterwards.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of notifications of every kind, with and without context, nested to any depth, over every mixture of observers, with any of them throwing",
  "tests notify a subject once or twice and look at one observer; none nests notifications or lets an observer throw.",
  ["src/estd/exp/observer.h"],
  [("delivery", "src/estd/exp/observer.h")],
  [("observers held", "the observers a subject refers to or owns, in order", "src/estd/exp/observer.h")],
  ["calls each observer saw"])

p("C24", "The compacting heap's blocks and free space partition its storage, always",
  "Through any history of allocations, releases and upkeep steps, in whatever order clients and upkeep interleave, the blocks that a handle-based compacting heap has given out and its free pieces lie inside its storage, never overlap and together make up all of it; what is written to a block stays as it is, handles in use are distinct, and the free space reported is what is really free. A request is refused only when no free piece is large enough or no handle is left, and a refusal changes nothing. Left alone, the upkeep ends after a bounded number of steps with neighbouring free pieces joined, so that once everything has been returned the whole storage can be had as one block.",
  ["histories", "schedules", "inputs"],
  "every history of sizes, releases and upkeep steps, with a step between any two operations, for every size of storage and number of handles",
  "tests free at most two blocks and run the upkeep without anything happening in between; the expectation that it joins everything is commented out there.",
  ["src/estd/exp/memory/memory_pool2.h"],
  [("allocation and release", "src/estd/exp/memory/memory_pool2.h"), ("upkeep", "src/estd/exp/memory/memory_pool2.h")],
  [("free list", "free pieces and their order", "src/estd/exp/memory/memory_pool2.h"), ("handles", "where each block lies", "src/estd/exp/memory/memory_pool2.h"), ("upkeep", "how far the pass has come", "src/estd/exp/memory/memory_pool2.h")],
  ["handles returned", "contents of blocks", "free space reported"])

p("C25", "A task runs what it was created for, once, and stops and resumes as told",
  "A task created through the FreeRTOS wrapper runs its function exactly once, with the argument, name and priority it was given and on the stack it was given, whether the kernel or the caller provides the memory, and writes nothing outside of that memory; a creation that fails is reported and runs nothing. From the moment a task is suspended it does not run until it is resumed, and suspending, resuming or inspecting one task neither stops, starts nor alters another. The state, name and handle reported are those of the task asked about at that moment, and yielding lets tasks of the same priority run.",
  ["schedules", "faults", "histories"],
  "every interleaving of several tasks, creations that fail for want of memory, and every history of suspensions and resumptions",
  "the wrapper needs an RTOS: none of the unit tests that run here touch it.",
  ["src/estd/port/freertos/wrapper/task.h", "src/estd/port/freertos/thread.h"],
  [("creation", "src/estd/port/freertos/wrapper/task.h"), ("suspend and resume", "src/estd/port/freertos/wrapper/task.h"), ("this_thread", "src/estd/port/freertos/thread.h")],
  [("task handle", "which kernel task the wrapper stands for", "src/estd/port/freertos/wrapper/task.h")],
  ["what each task saw when it ran", "states reported", "result of each creation"])
p("C26", "A ring buffer passes every item on exactly once, whole and in order",
  "Every item or block that a ring buffer accepts, whether sent in one step or acquired and then completed, from a task or from an interrupt, is received exactly once, whole, unaltered and in the order of its sender; one that is refused leaves nothing behind. A send or receive that has to wait ends within the limit it was given, succeeds when it becomes possible in time, and an interrupt is told when what it did woke a task. Items received stay untouched until they are returned, the room they took is free again afterwards, the largest item the buffer reports to take is one it takes, and deleting the buffer releases it exactly once.",
  ["schedules", "histories", "faults"],
  "every interleaving of tasks and interrupts, every size and order of items up to a full buffer, and every timeout",
  "the wrapper needs ESP-IDF: none of the unit tests that run here touch it.",
  ["src/estd/port/freertos/wrapper/ring_buffer.h", "src/estd/port/freertos/ring_buffer.h"],
  [("send and receive", "src/estd/port/freertos/wrapper/ring_buffer.h"), ("interrupt forms", "src/estd/port/freertos/wrapper/ring_buffer.h")],
  [("ring handle", "which kernel ring buffer the wrapper stands for", "src/estd/port/freertos/wrapper/ring_buffer.h")],
  ["items received", "largest item reported", "time of every wait"])

p("N01", "Number/text conversion is exact for every value and base",
  "Converting an integer to text and back yields the same value for every base, and out-of-range or malformed text is reported.",
  ["inputs"], "every value, base and buffer", "sampled values only",
  ["src/estd/charconv.h", "src/estd/internal/charconv/to_chars.hpp", "src/estd/internal/charconv/from_chars.hpp"],
  [("to_chars/from_chars", "src/estd/internal/charconv")])
p("N02", "Duration, ratio and unit arithmetic is exact across representations",
  "Converting and combining durations, time points, ratios and units gives the mathematically exact result, rounded only where the conversion says so.",
  ["inputs"], "every value and unit pair", "sampled values only",
  ["src/estd/chrono.h", "src/estd/ratio.h", "src/estd/internal/units/base.h"],
  [("duration_cast", "src/estd/internal/chrono/duration.h")])
p("N03", "Views, spans and algorithms agree with their standard counterparts",
  "String views, spans, algorithms, bit and hash utilities compute the same result as the standard definitions for every input within their preconditions.",
  ["inputs"], "every input", "sampled values only",
  ["src/estd/string_view.h", "src/estd/span.h", "src/estd/algorithm.h", "src/estd/bit.h"],
  [("algorithms", "src/estd/algorithm.h")])
p("N04", "Tuples, type traits and variadic utilities select the right type and element",
  "Type computations and tuple access select exactly the element and type the standard defines, for every type list.",
  ["programs"], "every program instantiating them", "compile-time facts on sampled types",
  ["src/estd/tuple.h", "src/estd/type_traits.h", "src/estd/internal/variadic.h"],
  [("type sequence selection", "src/estd/internal/variadic")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
