#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    n = statement.count('. ') + 1
    assert n <= 3, (id, n)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "RingBuffer is a byte FIFO with exact space accounting",
 "For every sequence of write, read, peek, discard and clear calls, the bytes read out of a RingBuffer are exactly the bytes accepted by write, in order, with none lost, duplicated or altered, also across the wrap-around of the buffer and of its 32-bit positions. "
 "Every call transfers min(requested, available) bytes and returns that number; available_read plus available_write always equals the real capacity, is_empty/is_full agree with them, peek changes nothing and a clear empties the buffer. "
 "Created from a requested size the capacity is the next power of two not below it; created in caller memory it is the largest power of two that fits behind the control block, and nothing outside the buffer is ever touched.",
 ["inputs", "histories"], "all capacities, all call sequences and transfer sizes, including more than 2^32 bytes streamed through one buffer",
 "The demo never drives RingBuffer directly; wrap positions, partial transfers and the 4 GiB position wrap are never reached.",
 ["src/ring/ringbuffer.c", "inc/ring/ringbuffer.h"],
 [("power-of-two masking of free-running in/out", "RingBuffer_write, RingBuffer_read_internal")],
 ["return values, copied bytes and the available_*/is_* queries after every call"])

prop("C02", "Lock-free single-producer single-consumer use of the rings is safe",
 "With one producer thread and one consumer thread and no lock, under every interleaving of their memory accesses, RingBuffer, the message queue and the fixed message queue hand the consumer exactly the producer's bytes or messages in order, complete and uncorrupted. "
 "A consumer call observes only data whose write has been published (it may report empty or 'again', never garbage or part of a message) and a producer call never overwrites data that has not been consumed. "
 "Once the producer has stopped, a consumer that keeps popping obtains every accepted message.",
 ["schedules", "inputs"], "all interleavings of one producer and one consumer at the granularity of individual memory accesses, all message sizes that fit",
 "The tests run whatever schedule the OS produces, with mostly empty queues; a window of two instructions is practically never hit.",
 ["src/ring/ringbuffer.c", "src/ring/msg_queue.c", "src/ring/fixed_msg_queue.c"],
 [("data is copied before the index is published; only one side writes each index", "RingBuffer_write, RingBuffer_read_internal"),
  ("header/body length test before consuming", "msg_queue_pop")],
 ["results and payloads of push/pop/read/write under a controlled scheduler"])

prop("C03", "ring_buf is an all-or-nothing byte FIFO",
 "For every sequence of calls ring_buf_write, ring_buf_read, ring_buf_peek and ring_buf_discard either transfer exactly the requested number of bytes, in FIFO order across any wrap position, or transfer nothing, change nothing and return 0. "
 "A write succeeds exactly when it fits into size-1 minus the unread bytes and a read exactly when enough bytes are unread; the two available_* queries always add up to size-1. "
 "This holds for buffers of any size (power of two or not), in allocated or caller-provided memory, without touching bytes outside the buffer.",
 ["inputs", "histories"], "all sizes >= 3 and all call sequences",
 "No test of the suite uses ring_buf at all.",
 ["src/ring/ring_buf.c", "inc/ring/ring_buf.h"],
 [("modular offsets with one slot kept free", "internal_ring_buf_read, ring_buf_write")],
 ["return values, bytes and available_* queries"])

prop("C04", "Auto-cover buffer keeps the newest bytes and never serves stale ones",
 "A write of at most the capacity always succeeds, and afterwards the buffer holds the newest bytes of the stream, at most one capacity of them; older ones are dropped oldest first. "
 "Reading n bytes from a stream position that is still retained returns exactly the bytes written at that position and drops everything before the end of what was read; if fewer than n bytes are there it reports not-enough and if the position's data has been dropped it reports covered, and in both cases changes nothing. "
 "The available query for a retained position is exactly the number of bytes between that position and the write end, and is never larger than what a read can obtain.",
 ["inputs", "histories"], "all capacities, all write/read/query sequences, all positions",
 "The single test writes one fixed pattern; wrapped/unwrapped boundary positions and full buffers are not covered.",
 ["src/ring/autocover_buffer.c", "inc/ring/autocover_buffer.h"],
 [("position arithmetic modulo capacity against read and write offsets", "auto_cover_buf_internal_read"),
  ("discard-before-write", "auto_cover_buf_write")],
 ["return codes and bytes of read/available/write"])

prop("C05", "Message queue delivers whole messages in order with exact status codes",
 "For every sequence of push, pop, next-size and clear calls the message queue returns the accepted messages whole, unmodified and in order. "
 "A push is accepted exactly when header plus payload fit into the free bytes (otherwise it reports full and changes nothing), a pop into a too small buffer reports the required size and leaves the message in place, and a pop on an empty queue reports empty. "
 "The available byte counters always account for exactly the stored messages with their headers.",
 ["inputs", "histories"], "all queue sizes, message sizes (including ones that wrap or do not fit) and call sequences",
 "Tests only push small messages through the handler into a large, nearly empty queue; full, wrap and small-buffer paths are not asserted.",
 ["src/ring/msg_queue.c", "inc/ring/msg_queue.h", "inc/ring/msg_queue_errno.h"],
 [("length header in front of every payload", "msg_queue_push, msg_queue_pop")],
 ["status codes, payloads, sizes and byte counters"])

prop("C06", "Fixed message queue is a bounded FIFO of equal-sized records",
 "For every record size and capacity and every call sequence, the fixed message queue returns exactly the accepted records, whole and in order; a push is refused exactly when no whole record fits and a pop exactly when no whole record is stored, and a refused call changes nothing. "
 "The push and pop amounts always equal the number of whole records that can still be pushed or popped, is_full/is_empty agree with them, and the queue never holds more records than requested at creation. "
 "Records that straddle the end of the storage are not torn.",
 ["inputs", "histories"], "all record sizes and capacities including non powers of two, all call sequences",
 "fixed_msg_queue has no test.",
 ["src/ring/fixed_msg_queue.c", "inc/ring/fixed_msg_queue.h"],
 [("amounts computed by integer division of the ring's byte counters", "fixed_msg_queue_available_*_amount")],
 ["results, records and amounts"])

prop("C07", "Message handler dispatches every accepted message once, in order, one at a time",
 "Every message accepted by msg_queue_handler_push is passed to the message callback exactly once, complete, in push order, on one single thread, without any further call being needed, unless the handler is destroyed or a callback returned non-zero first. "
 "READY_TO_GO is reported once before the first message and ABOUT_TO_STOP once after the last; after a callback returns non-zero no further message is dispatched and, once the stop was reported, a push is refused. "
 "Destroy always returns, waits for a running callback, and no callback runs after it returned, under every schedule of producer, worker and destroyer.",
 ["schedules", "inputs"], "all interleavings of one producer, the worker and destroy; all message sizes including ones above the worker's initial buffer and ones that fill the queue",
 "The tests look at one OS schedule with small messages and never stop or destroy at an awkward moment.",
 ["src/ring/msg_queue_handler.c", "src/ring/msg_queue.c", "inc/ring/msg_queue_handler.h"],
 [("semaphore count equals accepted, not yet popped messages", "thread_worker_handle_msg, msg_queue_handler_push"),
  ("flag2exit + post + join", "msg_queue_handler_destroy")],
 ["push results and callback events under a controlled scheduler"])

prop("C08", "Fixed message handler: ordered single dispatch, and clear really discards",
 "Every message accepted by fixed_msg_queue_handler_push is dispatched exactly once, unmodified, in push order on one thread without further calls, unless it was discarded by a later clear, the handler was destroyed, or a callback returned non-zero. "
 "After clear returns, no message accepted before the clear is dispatched any more except one whose dispatch had already begun, while every message accepted after the clear still is. "
 "READY_TO_GO precedes and ABOUT_TO_STOP follows all dispatches, destroy always returns and no callback runs afterwards, under every schedule.",
 ["schedules", "histories"], "all interleavings of one producer (push, clear), the worker and destroy",
 "There is no test of fixed_msg_queue_handler.",
 ["src/ring/fixed_msg_queue_handler.c", "src/ring/fixed_msg_queue.c", "inc/ring/fixed_msg_queue_handler.h"],
 [("monotone token compared with min_valid_token", "fixed_msg_queue_handler_push/clear, thread_fun_handle_msg")],
 ["push/clear results and callback events under a controlled scheduler"])

prop("C09", "Thread pool runs every submitted job exactly once, started in order",
 "Under every schedule, every job accepted by thpool_add_work is executed exactly once with its own argument (unless the pool is destroyed before the job is taken; then at most once), by at most as many threads at a time as the pool has. "
 "Jobs are taken in submission order: a job never starts before a job whose submission had completed earlier has been taken, and with a single worker they run strictly one after another in order. "
 "No job is left behind: as long as a worker is idle and the pool is neither paused nor destroyed, a queued job is eventually taken without any further call, also when jobs submit jobs.",
 ["schedules", "programs"], "all interleavings of workers and submitters (including jobs that submit jobs), all pool sizes",
 "The test runs 40 sleeps in one OS schedule and asserts a sum; lost wake-ups and double execution need specific interleavings.",
 ["src/thread/thpool.c", "inc/thread/thpool.h"],
 [("queue mutex, binary semaphore re-posted while jobs remain", "jobqueue_push, jobqueue_pull, bsem_*")],
 ["add_work results, job start/end events under a controlled scheduler"])

prop("C10", "thpool_wait returns only when all work is finished, and always returns then",
 "When thpool_wait returns, every job whose submission completed before the wait was called has finished executing, under every schedule. "
 "Conversely, as soon as no job is queued or running, every thread blocked in thpool_wait returns, with any number of concurrent waiters and any number of waits on the same pool. "
 "The working-thread count never exceeds the pool size, counts at least every job that is executing, and returns to zero when the pool is idle.",
 ["schedules"], "all interleavings of several waiters, submitters and workers",
 "The test waits once, from one thread, after all submissions.",
 ["src/thread/thpool.c"],
 [("working counter and queue length tested under the count lock, condition signalled when idle", "thpool_wait, thread_do")],
 ["wait call/return events and job start/end events"])

prop("C11", "Thread pool shutdown and pause are clean",
 "thpool_destroy always returns, waits for the jobs that are running, and after it returned no job of that pool starts or runs and no pool memory is used any more, under every schedule. "
 "While a pool is paused, no thread of it makes progress and no new job starts; after resume all of them continue where they were and no job is lost or repeated. "
 "Shutting down one pool does not stop or disturb another pool.",
 ["schedules", "histories"], "all interleavings of destroy with idle, waking, exiting and working threads; pause/resume with work pending",
 "Tests destroy an idle pool once; use after free by an exiting worker is invisible to them.",
 ["src/thread/thpool.c"],
 [("alive counter polled by destroy", "thpool_destroy, thread_do"), ("signal handler spinning on a flag", "thread_hold, thpool_pause, thpool_resume")],
 ["destroy return, job events and accesses to freed memory under a controlled scheduler"])

prop("C12", "mplite never hands out overlapping or short blocks and coalesces on free",
 "For every sequence of malloc, free and realloc calls on a pool, every block handed out is at least as large as requested, lies inside the pool, is suitably aligned and does not overlap any other live block, and its content is untouched until it is freed or reallocated (realloc preserves the common prefix; on failure the old block stays intact). "
 "A request that fits into the largest free buddy block is not refused; when everything is freed the pool is exactly as fresh, so that any allocation possible on a fresh pool succeeds again. "
 "The reported usage statistics always describe the live blocks, and a request that cannot be met returns NULL and changes nothing but the failure counters.",
 ["histories", "inputs"], "all pool sizes, minimum block sizes and allocation/free/realloc sequences",
 "The mplite demo is interactive and not part of the reliable tests; overlap after particular split/merge histories is never looked for.",
 ["src/mem/mplite.c", "inc/mem/mplite.h"],
 [("buddy free lists and per-atom control bytes", "mplite_malloc_unsafe, mplite_free_unsafe, mplite_link/unlink")],
 ["returned addresses, block contents and statistics"])

prop("C13", "hashmap behaves as a finite map with exact ownership of keys and values",
 "For every sequence of put, get, remove, clear, foreach, size and free calls, with any hash function (all keys colliding included) and any growth of the table, the hashmap answers exactly as a finite map keyed by the given equality. "
 "Every stored key and value is released through the supplied free callbacks exactly once, at the moment its entry is replaced (value only), removed, cleared or the map freed, and never otherwise. "
 "Iteration visits every entry exactly once, stops at once when the callback asks to stop, and allows removing the visited entry.",
 ["histories", "inputs"], "all operation sequences, hash functions, table sizes and collision patterns",
 "The hashmap is only exercised indirectly by str_params tests with a handful of keys.",
 ["src/data/hashmap.c", "inc/data/hashmap.h"],
 [("chained buckets, growth at 3/4 load", "hashmap_put, hashmap_remove, hashmap_foreach")],
 ["return values, iteration order-insensitive content, free callback invocations"])

prop("C14", "list is a sequence",
 "For every sequence of append, prepend, insert-after, remove, clear, foreach, front, back, length, contains and iteration calls, the list answers exactly as a sequence of the given elements. "
 "Removal takes out exactly one occurrence (the first) and reports whether there was one; elements are released through the free callback exactly once when removed, cleared or freed. "
 "Foreach visits the elements in order, stops at the element for which the callback returns false and returns its node, and tolerates removal of the visited element.",
 ["histories"], "all operation sequences",
 "The single list test uses one fixed sequence.",
 ["src/data/list.c", "inc/data/list.h"],
 [("singly linked list with head, tail and length", "list_insert_after, list_remove, list_free_node")],
 ["return values, element order through iteration, free callbacks"])

prop("C15", "array is a growable vector of fixed-size elements",
 "For every element size and every sequence of append, set and at/ptr calls, element i of the array is the value last stored at i, length is the number of appended elements, and growth preserves all elements. "
 "Operations on an index outside the length are rejected by the documented check and no byte outside the elements is touched.",
 ["histories", "inputs"], "all element sizes and operation sequences (also across the switch from internal to heap storage)",
 "array has no test.",
 ["src/data/array.c", "inc/data/array.h"],
 [("internal storage then geometric growth", "array_append_ptr, grow")],
 ["length and elements after every call"])

prop("C16", "The allocation tracker accounts for every block and catches misuse",
 "With tracking on, after every sequence of the lcu allocation calls the reported unfreed bytes are exactly the sum of the requested sizes of the live blocks and the report callback is called exactly once per live block with its pointer, size and origin. "
 "Freeing an unknown or already freed pointer, or a block whose guard bytes before or after it were overwritten, aborts the program; nothing else does. "
 "With tracking on or off, the calls behave as malloc, calloc, realloc, free, strdup and strndup: blocks are usable in their full requested size, zeroed where promised, and contents survive reallocation.",
 ["histories", "inputs", "configurations"], "all call sequences, sizes and origins, tracker on and off",
 "The allocator test performs a few calls with the tracker on and checks little more than that it does not crash.",
 ["src/mem/allocation_tracker.c", "src/mem/allocator.c", "inc/mem/allocator.h", "inc/mem/allocation_tracker.h"],
 [("canaries around blocks, map of live blocks", "allocation_tracker_notify_alloc/free"), ("trace wrappers", "lcu_*_trace")],
 ["leak reports, aborts, block contents"])

prop("C17", "str_params is a string-to-string map with a faithful text form",
 "Parsing 'k=v' text joined by the delimiter yields exactly the non-empty keys with their last values (a key without '=' has the empty value); add, get, has and delete then behave as a map, and typed getters return the stored number or an error without inventing a value. "
 "Formatting to a string and parsing it again with the same delimiter yields an equal map, with every entry appearing exactly once. "
 "No input leaks memory or touches memory outside the given buffers, and a copy-out into a small buffer never overruns it.",
 ["inputs", "histories"], "all input texts, delimiters, keys and values, and operation sequences",
 "The test parses a few fixed texts and prints the result.",
 ["src/mem/str_params.c", "inc/mem/str_params.h"],
 [("tokenising with key/value ownership in a hashmap", "str_params_create_str, str_params_add_*, str_params_to_str")],
 ["return codes, values, text forms"])

prop("C18", "INI document answers as an ordered, case-insensitive section/key map",
 "For every sequence of parse, put, get, has, delete, iterate and dump operations the INI document behaves as an ordered list of sections with ordered keys, compared without regard to case: a put on an existing key replaces its value in place, otherwise it appends, and a get returns exactly the last value put. "
 "Deleting a section or key removes exactly that one and nothing that is looked up afterwards refers to it; other sections and keys keep their order and values. "
 "Iteration visits every key of every section in order and stops at once when the handler returns non-zero; lookups of absent entries report not-found, and a typed getter returns the number the text states or fails.",
 ["histories", "inputs"], "all operation sequences over sections and keys in any letter case, names up to 63 and values up to 255 bytes",
 "The test reads one fixed document and changes one value.",
 ["src/file/ini_parser.c", "inc/file/ini_parser.h"],
 [("section and key lists plus a last-used-section cache", "ini_parser_put_string, ini_parser_get_*, ini_parser_delete_*")],
 ["status codes, values, iteration order"])

prop("C19", "INI text form round-trips through memory and files",
 "Dumping a document of representable names and values (sections with keys, no leading or trailing blanks, no comment marker or bracket inside) and parsing the text again yields the same sections, keys and values in the same order, and save followed by parse_file does the same through a file. "
 "Parsing accepts comments, blank lines, surrounding white space, both '=' and ':' separators and LF or CRLF line ends, and yields exactly the pairs the text states; malformed lines are reported as failure instead of being silently misread. "
 "The predicted dump size always suffices, and dumping into a too small buffer is refused without writing outside it.",
 ["inputs"], "all documents within the documented length limits, all buffer sizes",
 "The test parses one file shipped with the demo.",
 ["src/file/ini_parser.c", "src/file/ini_reader.c", "inc/file/ini_reader.h"],
 [("line oriented reader", "ini_parse_stream"), ("dump with size prediction", "ini_parser_dump_to_mem, ini_parser_dump, ini_parser_save")],
 ["re-parsed document, dump text, status codes"])

prop("C20", "xlog emits exactly the enabled records, complete, levelled and not interleaved",
 "For every setting of minimum level, targets and header format and every logging call, a record goes to each enabled target exactly once if its level is at least the minimum and level and tag are enabled, and not at all otherwise. "
 "A record carries the caller's level and tag and the complete formatted message whatever its length, with exactly the configured header parts, and the size given to the user callback is the text's length. "
 "Records of concurrently logging threads are each emitted whole and never overlap, and settings changed at run time apply to every later call; the minimal logger slog obeys its own level the same way.",
 ["inputs", "configurations", "schedules"], "all levels, tags, message lengths and settings; concurrent loggers and setters",
 "The log output of the demo is never compared with anything.",
 ["src/log/xlog.c", "inc/log/xlog.h", "src/log/slog.c", "inc/log/slog.h"],
 [("level filter, stack buffer with heap fallback, single write per record", "__xlog_internal_print")],
 ["bytes delivered to the user callback and to the console stream"])

prop("C21", "file_logger writes accepted records in order, completely, across rotation",
 "Every (text) record accepted by file_logger_log is, when the logger is deinitialised after it went idle, stored exactly once and completely, in acceptance order, over the log files in creation order; nothing else is stored. "
 "A new file is started once the current one has reached the configured size, records are never split over files, and no existing file of the run is overwritten. "
 "Records that could not be queued are never half-written, and in keep-best mode they end up in the companion '_lost' file; initialisation, logging and deinitialisation terminate under every schedule.",
 ["schedules", "inputs", "histories"], "all record sizes, file size limits, queue sizes and interleavings of callers with the writer",
 "The file logger test only runs it; nothing reads the files back.",
 ["src/log/file_logger.c", "src/ring/msg_queue_handler.c", "inc/log/file_logger.h"],
 [("records queued to one writer thread, size counter drives rotation", "file_logger_log, handle_log_msg")],
 ["directory content and file bytes after deinit"])

prop("C22", "Time helpers agree with the calendar and the cache is transparent",
 "For every second of the years 1970 to 9999 and every whole-hour offset from -12 to 12, the fast second-to-date conversion gives exactly the proleptic Gregorian calendar date and time, whatever was converted before and on whatever thread. "
 "Formatting of a time into text (date-time, RFC 1123, RFC 2822) denotes that same instant and fits the documented buffer. "
 "Elapsed/now helpers never go backwards relative to the clock they read.",
 ["inputs", "histories"], "all instants (leap days, century years, after 2038, minute/hour/day boundaries) in any order of calls",
 "The test prints the current time and compares a narrow range.",
 ["src/time/time_util.c", "src/time/time_rfc1123.c", "src/time/time_rfc2822.c", "inc/time/time_util.h"],
 [("per-minute cached conversion", "time_util_fast_second2date"), ("table driven formatting", "time_rfc*")],
 ["converted fields and texts"])

prop("C23", "stringbuilder builds exactly the concatenation of its operations",
 "For every sequence of append (string, bounded, character, formatted), clear and growth, the stringbuilder's text equals the concatenation the calls describe, its length is that text's length, and the text is always terminated. "
 "A bounded append takes at most the string's own length, growth never loses or alters text, and a failed call changes nothing.",
 ["histories", "inputs"], "all operation sequences, lengths around the growth boundary and formatted outputs longer than any internal buffer",
 "The test appends a handful of short strings.",
 ["src/mem/stringbuilder.c", "inc/mem/stringbuilder.h"],
 [("grow-then-copy with terminator", "stringbuilder_ensure_space, stringbuilder_append*")],
 ["text and length after every call"])

prop("C24", "String helpers compute their documented function within their buffers",
 "strlcpy/strlcat, case folding and comparison, trimming, replacing, splitting, UTF-8 length and hex conversion return exactly the documented result for every input, including empty strings, empty patterns (which occur nowhere) and lengths at the buffer limit. "
 "No helper writes beyond the capacity it is given, leaves its result unterminated, reads beyond its input or fails to terminate.",
 ["inputs"], "all strings, patterns and buffer capacities",
 "Tests compare a few fixed strings with comfortable buffers.",
 ["src/mem/strings.c", "inc/mem/strings.h", "src/mem/asprintf.c"],
 [("length arithmetic per helper", "src/mem/strings.c")],
 ["results and bytes around the given buffers"])

prop("C25", "base64 and URL codecs are exact inverses and emit the standard alphabet",
 "For every byte string of at least two bytes base64 encoding yields the RFC 4648 text with padding and the announced length, and decoding any such text restores the bytes; URL encoding yields only unreserved characters, '+' and %XX escapes and decoding restores the input. "
 "Encoders and decoders never write beyond the announced or given size; URL decoding into a small buffer or of an incomplete escape stops and reports how far it got.",
 ["inputs"], "all byte strings and output capacities",
 "Tests use fixed samples of one or two lengths.",
 ["src/data/base64.c", "src/net/url_encoder_decoder.c", "inc/data/base64.h", "inc/net/url_encoder_decoder.h"],
 [("table driven transducers", "base64_encode/decode, url_encode/decode")],
 ["output bytes, lengths and guard bytes"])

prop("C26", "A caller-supplied lock makes the shared containers linearizable",
 "When created with a lock, the hashmap, the mplite pool and the auto-cover buffer may be called from several threads: under every schedule the results of concurrent calls are those of some sequential order of the calls that respects their real-time order. "
 "Every call acquires the lock before touching shared state and releases it exactly once on every path, including failures and early returns, so that no schedule deadlocks or leaves the lock held. "
 "The same holds for the allocation tracker and for the file logger's optional lock with several logging threads.",
 ["schedules", "histories"], "all interleavings of several threads calling every operation, on success and failure paths",
 "No test uses the lock parameters at all.",
 ["src/data/hashmap.c", "src/mem/mplite.c", "src/ring/autocover_buffer.c", "src/mem/allocation_tracker.c", "src/log/file_logger.c"],
 [("acquire/release around every public operation", "HASHMAP_LOCK, mplite_enter/leave, AUTOCOVER_LOCK")],
 ["call/return events under a controlled scheduler, lock acquire/release events"])

prop("C27", "File helpers transfer files faithfully and report failures",
 "Writing and then reading a file returns the same bytes and sizes for every content, also when the system transfers less than asked at a time; read-all returns the whole file terminated by a zero byte (an empty file may be refused), read-txt delivers every line once, in order and whole, whatever its length, and errors of the system are reported. "
 "Creating directories creates every missing level of the path up to its last slash, succeeds if a level already exists or someone else creates it meanwhile, and refuses a path that is too long; path helpers keep every path they can hold intact and refuse the others. "
 "Directory iteration reports every entry exactly once with its kind and size, skips '.' and '..', stops when the callback asks to, and reports an entry or directory it cannot examine.",
 ["inputs", "fault_sequences"], "all contents, paths, directory trees and partial-transfer/failure patterns of the system calls",
 "The test copies one small file; partial transfers and failures are never injected.",
 ["src/file/file_util.c", "src/file/file_iterator.c", "inc/file/file_util.h", "inc/file/file_iterator.h"],
 [("read/write helpers and recursive walk", "file_util_*, file_iterator_foreach")],
 ["return values, file bytes, visited entries"])

prop("C28", "Portable thread primitives keep their POSIX meaning",
 "The portable wrappers for threads, mutexes, read-write locks and semaphores provide mutual exclusion, wake-up and counting exactly as their POSIX counterparts under every schedule: a mutex has one holder, a write lock excludes everyone and read locks share, a semaphore admits as many waits as its count and posts allow, and nobody waits for something that is free. "
 "A created thread runs its function exactly once with its argument and join returns after it ended with its result; failures and invalid arguments are reported and change nothing.",
 ["schedules", "inputs"], "all interleavings of a few threads over every primitive",
 "The wrapper test makes a few calls from two threads.",
 ["src/thread/portable_thread_posix.c", "src/thread/posix_thread.c", "inc/thread/portable_thread.h", "inc/thread/posix_thread.h"],
 [("thin wrappers over heap allocated pthread objects", "portable_*")],
 ["results and ordering events under a controlled scheduler"])

prop("C29", "Global init and cleanup are reference counted",
 "For every sequence of global init and cleanup calls, the library is initialised exactly while there are more successful inits than cleanups: only the first init initialises, only the matching last cleanup tears down, surplus cleanups do nothing, and init after cleanup works again. "
 "Settings survive nested calls, and an initialisation that fails is reported and undone, so that it can be tried again.",
 ["histories"], "all call sequences",
 "The demo calls each function once.",
 ["src/lcu.c", "src/log/xlog.c", "src/time/time_util.c"],
 [("g_init_times counter", "lcu_global_init, lcu_global_cleanup")],
 ["behaviour of logging and time services between the calls"])

prop("C30", "Integer and hash helpers compute their mathematical function",
 "For every 32-bit value the power-of-two test, round-up and round-down helpers give exactly the mathematical answer, within the representable range. "
 "The hash functions depend only on the hashed value: equal keys hash equal on every call, so that any map built on them finds what was stored.",
 ["inputs"], "all 32-bit values; all keys",
 "The test checks a handful of values.",
 ["src/data/integer.c", "src/data/hash_functions.c", "inc/data/integer.h", "inc/data/hash_functions.h"],
 [("bit arithmetic", "src/data/integer.c")],
 ["results"])

prop("C31", "Whatever is acquired is given back exactly once",
 "Over every history of creating, using, emptying and destroying objects of the library, including calls that fail because memory runs out at any point, each object owns exactly what was acquired for it: destroying it returns all of its memory and descriptors (no leak, nothing freed twice or used afterwards) and empties the caller's handle, emptying it releases its contents, and a creation that fails leaves nothing behind. "
 "Calls on one object never change what another object owns, memory and locks supplied by the caller stay the caller's, and one-shot calls (file reading and iteration, string replacement, INI reading and saving, URL decoding) keep nothing after they return.",
 ["histories", "fault_sequences"], "all interleaved lifetimes of several objects of every component, all allocation-failure points",
 "The tests destroy each object once on the good path and never count what remains; no test makes an allocation fail.",
 ["src/ring", "src/data", "src/mem", "src/file", "src/net", "src/thread/portable_thread_posix.c"],
 [("create/destroy pairs", "RingBuffer_*, ring_buf_*, autocover_buffer_*, msg_queue_*, fixed_msg_queue_*, hashmap_*, list_*, array_*, stringbuilder_*, str_params_*, ini_parser_*, portable_*")],
 ["heap blocks and descriptors held after each call", "results of create and destroy"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
