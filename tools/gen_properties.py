#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "A map always answers like a dictionary",
  "After any sequence of put, get, delete, clear and re-initialisation, with any initial capacity and any accepted load factor, a map of every provided key/value type answers lookups, presence, returned previous/deleted values and element count exactly as an abstract dictionary would, including for the zero / NULL key, empty strings, equal strings at different addresses and keys that collide. Iterating over pairs, keys or values visits every stored entry exactly once and nothing else. A string-keyed map refers to the key text given in the last put of a key, so an earlier equal text may be released. Load factors outside the accepted range are refused at initialisation.",
  ["inputs", "histories", "configurations"],
  "all operation histories x key sets (dense, sparse, colliding, boundary) x 14 key/value instantiations x initial capacities x load factors",
  "map_test.c walks a few fixed insert/delete loops with mostly ascending or rand() keys; back-shift deletion across wrap-around, collision clusters and interleavings of the zero key with rehashing need searched histories.",
  ["map/sc_map.c", "map/sc_map.h"],
  [("open addressing with linear probing and back-shift deletion", "map/sc_map.c sc_map_del_*"),
   ("rehash when load factor reached", "map/sc_map.c sc_map_remap_*"),
   ("out-of-band slot for the zero key", "map/sc_map.c mem[-1], used")],
  ["sc_map_put/get/del/size/clear/foreach*", "sc_map_found"],
  [("mem/cap/size/remap/used", "probe table, live count, rehash threshold, zero-key presence", "map/sc_map.h sc_map_of")])

p("C02", "A map put that runs out of memory is reported and changes nothing",
  "When an allocation fails at any point of a map history, or the map cannot grow any further, the put that needed it reports out of memory, and every entry, value and count observable before it is still there unchanged. The map stays usable: once memory is available again puts succeed and the out-of-memory indication is cleared, and no memory is leaked or freed twice over the whole history.",
  ["fault_sequences", "histories"],
  "all histories x every position and pattern of allocation failure",
  "map_test.c fails calloc at one or two fixed points and does not compare the contents afterwards.",
  ["map/sc_map.c", "map/sc_map.h"],
  [("allocate-new-then-swap rehash", "map/sc_map.c sc_map_remap_*"), ("oom flag reset and set by put", "map/sc_map.c sc_map_put_*")],
  ["sc_map_oom", "sc_map_get/size after a failed put", "allocator balance"])

p("C03", "Buffer values decode to exactly what was encoded",
  "Any sequence of typed values (bool, 8/16/32/64-bit integers, doubles, strings, NULL strings, length-delimited strings, formatted strings, blobs, raw bytes) written to a buffer that does not report an error reads back identically and in order, consuming exactly the bytes produced. The encoded size of each value equals the advertised encoded length, integers are little-endian, and strings are an 8-byte length, the bytes and a terminating zero on every platform. Values overwritten in place at a position and values peeked at a position follow the same encoding and do not move the read or write position.",
  ["inputs", "histories"],
  "all sequences of typed values, all value contents, all starting capacities (growth in the middle of a value) and wrapped or owned buffers",
  "buf_test.c writes a handful of constants; growth boundaries falling inside a value, NaN payloads, embedded zeros and exact-fit formatted strings are not sampled.",
  ["buffer/sc_buf.c", "buffer/sc_buf.h"],
  [("typed put/get/peek/set", "buffer/sc_buf.c sc_buf_put_*, sc_buf_get_*, sc_buf_peek_*, sc_buf_set_*"),
   ("string framing", "buffer/sc_buf.c sc_buf_put_str, sc_buf_put_fmt, sc_buf_get_str"),
   ("encoded lengths", "buffer/sc_buf.h sc_buf_*_len")],
  ["bytes of the buffer", "decoded values", "read/write positions"])

p("C04", "Decoding untrusted bytes never leaves the buffer and errors stick",
  "Whatever bytes a buffer holds and whatever positions and lengths are asked for, reads and in-place writes never touch memory outside the written region (reads) or the capacity (writes): a request that does not fit yields zero / NULL, sets the error state and does not advance, and a request that fits yields exactly the bytes that are there. Once the error state is set, later typed reads keep failing and it stays set until the buffer is cleared. A string returned by decoding always lies entirely inside the written region and is followed by a terminating zero there.",
  ["inputs", "histories"],
  "all byte contents x all sequences of read / peek / set / get calls x all 64-bit positions and lengths, including ones near the top of the range",
  "buf_test.c only checks short reads of small buffers; attacker-chosen 64-bit lengths and positions whose sum wraps around are never tried.",
  ["buffer/sc_buf.c"],
  [("bounds check before each access", "buffer/sc_buf.c sc_buf_*_pos, sc_buf_get_str, sc_buf_get_blob, sc_buf_get_data, sc_buf_peek_data, sc_buf_set_data"),
   ("sticky error flag", "buffer/sc_buf.c err")],
  ["return values", "sc_buf_valid", "AddressSanitizer red zones around the buffer"])

p("C05", "Buffer growth, limits, compaction, shrinking and moving keep the unread bytes",
  "Across any history of writes, reads, reserve, compact, shrink, limit changes, moves between buffers, appended text and clear, the unread bytes of a buffer are exactly those written and not yet read, in order, and size, free space and capacity stay consistent. A buffer over borrowed memory never grows, reallocates or frees that memory and never writes past it; an owned buffer never grows beyond its limit, and a write that cannot fit sets the error state instead (a text append that cannot fit also empties the buffer). A move transfers the longest prefix that fits and removes exactly that prefix from the source.",
  ["histories", "inputs", "fault_sequences"],
  "all operation histories over owned and borrowed buffers, capacities, limits and allocation failures",
  "buf_test.c checks each operation once in isolation; interactions (shrink after partial reads, move into a nearly full or errored buffer, limit below capacity) are not sampled.",
  ["buffer/sc_buf.c"],
  [("page-rounded growth bounded by limit", "buffer/sc_buf.c sc_buf_reserve"), ("compaction", "buffer/sc_buf.c sc_buf_compact"),
   ("shrink", "buffer/sc_buf.c sc_buf_shrink"), ("move", "buffer/sc_buf.c sc_buf_move"), ("text append", "buffer/sc_buf.c sc_buf_put_text")],
  ["sc_buf_size/quota/cap/rpos/wpos", "bytes between the read and write position", "allocator calls"])

p("C06", "An array always equals the sequence of its operations",
  "After any sequence of appends, ordered deletes by position, unordered deletes, delete-last, clear, sort and re-initialisation, an array of any element type holds exactly the sequence an abstract list would hold (as a set with the last element moved into the hole for unordered deletes), with the same size, last element and element addresses by position. Iteration visits the elements in order exactly once, sorting yields an ordered permutation, and results do not depend on the names or forms of the expressions used as arguments.",
  ["histories", "inputs", "configurations"],
  "all operation histories x element types (1 to 24 byte elements) x positions",
  "array_test.c uses short fixed sequences of ints and strings.",
  ["array/sc_array.h"],
  [("doubling growth", "array/sc_array.h sc_array_add"), ("memmove delete", "array/sc_array.h sc_array_del"), ("swap-with-last delete", "array/sc_array.h sc_array_del_unordered")],
  ["sc_array_size/at/last/foreach"])

p("C07", "A queue is a double-ended queue in every history",
  "After any interleaving of adding and removing at either end, clear and re-initialisation, a queue holds exactly the elements an abstract double-ended queue would hold, in the same order, across any number of internal wrap-arounds and growths. The element added may be given by an expression over the queue itself (its peeks, its size, its n-th element). Size, emptiness, both peeks, positional access, index walking and iteration agree with that sequence at every step.",
  ["histories", "inputs", "configurations"],
  "all histories of operations at both ends x element types",
  "queue_test.c exercises fixed add/remove patterns; growth while the contents wrap around at each possible offset is not covered.",
  ["queue/sc_queue.h"],
  [("power-of-two ring", "queue/sc_queue.h sc_queue_add_first/add_last/del_first/del_last"), ("unrolling growth", "queue/sc_queue.h sc_queue_expand")],
  ["sc_queue_size/empty/peek/at/foreach"])

p("C08", "A heap always hands out the smallest remaining key",
  "After any sequence of adds, pops, peeks and clears, with any keys (duplicates, extremes, negated keys for a max-heap) and any initial capacity, peek and pop return an element with the smallest key present together with the data added with it, and the number of elements equals adds minus pops. Popping until empty yields every added element exactly once in non-decreasing key order, and an empty heap reports that there is nothing.",
  ["histories", "inputs"],
  "all histories x 64-bit keys incl. duplicates and extremes x capacities",
  "heap_test.c sorts a few fixed arrays; interleaved add/pop with duplicates and extremes is not searched.",
  ["heap/sc_heap.c", "heap/sc_heap.h"],
  [("sift-up on add", "heap/sc_heap.c sc_heap_add"), ("sift-down on pop", "heap/sc_heap.c sc_heap_pop")],
  ["sc_heap_pop/peek/size"])

p("C09", "Intrusive lists stay well linked in every history",
  "After any sequence of adding at head, tail, before or after a member, unlinking, popping from either end, clearing and moving elements between lists (including re-adding an element that is already in a list), every list contains exactly the elements an abstract sequence would, in order forwards and backwards. Counts, emptiness, head, tail and membership neighbours agree, an element is never in two lists, and the loop that permits deletion visits every element once while elements are removed.",
  ["histories"],
  "all histories over several lists and a shared pool of elements",
  "list_test.c uses one list and short fixed sequences.",
  ["linked-list/sc_list.c", "linked-list/sc_list.h"],
  [("circular double links with unlink-before-link", "linked-list/sc_list.c")],
  ["sc_list_head/tail/next/prev/count/foreach*"])

p("C10", "Running out of memory in containers, strings or buffers corrupts nothing",
  "If any single allocation, or every allocation from some point on, fails during a history on arrays, queues, heaps, buffers, timers or strings, the operation that needed it reports failure in its documented way and leaves all previously stored contents observable and unchanged (a failed text append to a buffer empties that buffer, as documented there). Subsequent operations that need no memory work, operations that need memory succeed again once memory is available, and nothing is leaked, freed twice or used after being freed.",
  ["fault_sequences", "histories"],
  "all histories x every allocation index failing (once or from there on)",
  "The tests fail one allocation at a fixed call and only look at the return value.",
  ["array/sc_array.h", "queue/sc_queue.h", "heap/sc_heap.c", "timer/sc_timer.c", "string/sc_str.c", "buffer/sc_buf.c"],
  [("check-then-commit growth", "sc_array_add, sc_queue_expand, sc_heap_add, sc_buf_reserve, expand in sc_timer.c, sc_str_set/append/trim/replace")],
  ["return values, oom indications, contents after the failure, allocator balance"])

p("C11", "Timers fire exactly once, never early, never lost",
  "For any history of adding, cancelling and advancing time (in steps of any size, including none and very large jumps), every timer that is not cancelled fires exactly once with the type and data it was added with, never before the requested delay has passed according to the supplied clock, and not later than two ticks after the delay when the clock advances in whole ticks of at most a full turn of the wheel, or one turn of the wheel after it in any case. A cancelled timer never fires, cancelling clears the caller's handle, and callbacks may add and cancel timers. The suggested wait returned by an advance is never longer than the wheel tick, and following it makes progress (it is not zero again and again while the clock stands still).",
  ["histories", "inputs"],
  "all add/cancel/advance histories, delays from 0 to 2^40 ms, arbitrary monotone clock steps, callbacks that add and cancel",
  "timer_test.c uses fixed delays and steps; wheel-slot growth, delays longer than a full turn and large clock jumps are not explored systematically.",
  ["timer/sc_timer.c", "timer/sc_timer.h"],
  [("hashed wheel with remaining-turn check", "timer/sc_timer.c sc_timer_timeout"), ("handle = slot/sequence", "timer/sc_timer.c sc_timer_add, sc_timer_cancel"), ("per-slot growth", "timer/sc_timer.c expand")],
  ["callback invocations", "sc_timer_timeout return value"])

p("C12", "String operations equal their textual definitions",
  "For all texts and arguments (not only short ones), creating, setting, appending, formatting, comparing, substring extraction, trimming by a character set and replacing every occurrence of a pattern yield exactly the text a naive reference computes, the stored length always equals the text length and the text is always terminated. The text, character set, pattern or replacement given may also be the string itself or its end. NULL inputs and out-of-range substring bounds are handled as documented and a failed operation leaves the old text in place. A string operation never hangs on any input.",
  ["inputs", "histories"],
  "all operation histories x texts (bytes 1..255, empty, overlapping patterns, long) x bounds",
  "str_test.c uses a few short literals; overlapping or length-changing replacements and all-trimmed texts are barely sampled.",
  ["string/sc_str.c", "string/sc_str.h"],
  [("length-prefixed storage", "string/sc_str.c struct sc_str"), ("replace in place or by reallocation", "string/sc_str.c sc_str_replace"), ("trim", "string/sc_str.c sc_str_trim")],
  ["returned text, sc_str_len, sc_str_cmp"])

p("C13", "Tokenising splits exactly at delimiters and gives the text back unchanged",
  "For every text and every delimiter set, repeated tokenising yields exactly the maximal delimiter-free pieces, including empty ones, in order, and then signals the end. When tokenising has finished the text is byte-for-byte what it was before it started, and concatenating pieces with the delimiters that separated them reproduces it.",
  ["inputs"],
  "all texts x delimiter sets",
  "str_test.c tokenises a few literals.",
  ["string/sc_str.c", "string/sc_str.h"],
  [("save-and-restore of the overwritten delimiter", "string/sc_str.c sc_str_token_begin, sc_str_token_end")],
  ["tokens", "text after the last token"])

p("C14", "INI parsing reports exactly the items the text denotes",
  "For any INI text, the parser reports the (line number, section, key, value) items in order exactly as the documented grammar denotes them: sections, '=' or ':' separators, ';' or '#' comments, surrounding whitespace trimmed, multi-line values, a leading byte-order mark, and over-long lines, section names and the keys repeated for continuation lines cut off silently at their limits. A comment starts at the beginning of a line or after a space character. The first malformed line, or the first item the callback refuses, stops parsing at once with that line number. Parsing a file gives the same result as parsing the same text from a string.",
  ["inputs"],
  "all texts from a grammar with mutations, all line lengths around the limits, callback refusing at any item",
  "ini_test.c parses about 15 short literals; long lines in files and mixtures are not covered.",
  ["ini/sc_ini.c", "ini/sc_ini.h"],
  [("line splitting", "ini/sc_ini.c file_line, string_line"), ("comment/space trimming and item dispatch", "ini/sc_ini.c sc_ini_parse")],
  ["callback invocations", "return value"])

p("C15", "INI parsing of arbitrary bytes is memory safe, total and repeatable",
  "For arbitrary bytes, given as a string or as a file, INI parsing terminates without reading or writing outside its buffers, calls the callback only with terminated strings (section at most 255 bytes, key and value within the 1023 byte line limit) and strictly increasing line numbers that exist in the input, and returns zero or a positive line number of the input. Parsing the same input twice gives the same sequence of items and the same result, and the input text is not modified and no file is left open.",
  ["inputs"],
  "all byte strings up to tens of kilobytes, incl. no newline, only newlines, NUL bytes in files, lines at the buffer limit",
  "Tests contain only well-behaved text.",
  ["ini/sc_ini.c"],
  [("bounded line buffer and bounded copies", "ini/sc_ini.c sc_ini_parse")],
  ["ASan/UBSan", "callback arguments", "return value"])

p("C16", "URI components are exact, and any input is parsed or refused cleanly",
  "For every well-formed URI the scheme, user information, host, port, path, query and fragment reported are exactly the corresponding pieces of the text (empty when absent), and the stored full text equals the input. For any other byte string the parser either refuses it or returns components that are terminated and are the pieces of the input in order, without reading or writing outside its buffers. Inputs without a ':' after a scheme, with a malformed bracketed host, or with a port that is empty, non-numeric or above 65535 are refused.",
  ["inputs"],
  "all URIs from the generic grammar (with and without each component, delimiters occurring inside later components, bracketed hosts, port boundaries) plus arbitrary bytes",
  "uri_test.c has about a dozen textbook URIs; delimiters such as '@', ':' or '?' inside later components are not covered.",
  ["uri/sc_uri.c", "uri/sc_uri.h"],
  [("left-to-right split into one allocation", "uri/sc_uri.c sc_uri_create")],
  ["the component strings"])

p("C17", "Command-line options are recognised exactly as declared",
  "For any table of declared options and any argument vector, each argument is classified exactly as documented: a long or short option is recognised by its exact name or letter, its value is the text after '=' or the empty text when none is given, and anything else is reported as unknown with the argument text. No argument vector causes reading outside the arguments or modifying the declarations.",
  ["inputs", "configurations"],
  "all option tables x argument vectors from a grammar and arbitrary bytes",
  "option_test.c covers two fixed tables.",
  ["option/sc_option.c", "option/sc_option.h"],
  [("prefix and letter matching", "option/sc_option.c sc_option_at")],
  ["returned letter and value for each index"])

p("C18", "CRC-32C equals its mathematical definition however it is computed",
  "For every byte string, alignment and starting value, the checksum equals bit-by-bit CRC-32C, both in the hardware-accelerated and in the table-driven build, so the two agree with each other. Feeding the data in pieces, split anywhere, gives the same result as feeding it at once, and the input is not modified or read beyond its end.",
  ["inputs", "configurations"],
  "all lengths (dense around 0..4096 and the internal block sizes, plus up to hundreds of kilobytes), all alignments, all seeds, all splits, two build configurations",
  "crc32_test.c compares one or two vectors; the three-way interleaved hardware path has length thresholds that vectors do not reach.",
  ["crc32/sc_crc32.c", "crc32/sc_crc32.h"],
  [("slicing tables", "crc32/sc_crc32.c crc32c_sw"), ("three-stream hardware loop with zero-operator combination", "crc32/sc_crc32.c crc32c_hw")],
  ["sc_crc32 return value"])

p("C19", "Size conversion, power-of-two and random utilities match their definitions",
  "Parsing a size text yields number times unit for every non-negative number and unit (case-insensitive, optional trailing b, spaces allowed between number and unit) whose product fits in 63 bits, and -1 for everything else including overflow, negative numbers and trailing garbage. Printing a size yields a number from 1.00 to below 1024 with the unit that makes it right to two decimals (plain bytes below 1024), rounding up to a power of two gives the smallest one not below the argument (up to 2^63), and swapping / min / max / power tests agree with arithmetic. The random generator's output stream depends only on its 256-byte seed and equals RC4 keyed with it (going on, as in sqlite, with the key schedule's index) regardless of how reads are chunked.",
  ["inputs"],
  "all 64-bit values, all size texts from a grammar and arbitrary bytes, all chunkings",
  "sc_test.c checks one value per unit.",
  ["sc/sc.c", "sc/sc.h"],
  [("size parsing with overflow check", "sc/sc.c sc_size_to_bytes"), ("size printing", "sc/sc.c sc_bytes_to_size"), ("RC4 generator", "sc/sc.c sc_rand_init, sc_rand_read"), ("pow2", "sc/sc.c sc_to_pow2, sc_is_pow2")],
  ["return values"])

p("C20", "The signal-safe formatter agrees with the standard formatter and its bounds",
  "For every format string built from the supported conversions and every argument value, the signal-safe formatter produces byte for byte what the C library produces for the same call (the spelling of a null %p apart) and reports the number of characters written. Whatever the destination size, it never writes past it, always terminates the text if there is room for at least one byte, and truncates exactly at the boundary. An unsupported conversion is reported as an error rather than misformatted, and no format within the supported set reads beyond its arguments.",
  ["inputs"],
  "all supported conversions x 64-bit values incl. extremes x destination sizes 0..n x literal text",
  "signal_test.c checks a few values and one truncation.",
  ["signal/sc_signal.c", "signal/sc_signal.h"],
  [("async-signal-safe vsnprintf", "signal/sc_signal.c sc_signal_vsnprintf")],
  ["destination bytes around the bound, return value"])

p("C21", "Signals shut down once, are logged safely and keep their default outcome",
  "In a process with the handlers installed, the first shutdown signal, whenever it arrives, delivers exactly one shutdown notification through the configured descriptor and the process keeps running with errno unchanged; a second one, even in the middle of the first one's handler, ends it at once with status 1, and the first one ends it with status 0 without a descriptor or 1 when the notification cannot be delivered, in each case without running exit handlers. A broken pipe does not kill the process, and a fatal signal writes a report containing the signal to the configured descriptor before the process dies from that very signal. Diagnostics written from the handlers name the signal in complete lines on the configured descriptor, and handlers call only signal-safe functions. A handler that cannot be installed is reported by initialisation.",
  ["schedules", "histories", "fault_sequences"],
  "all sequences of signals sent at arbitrary points of a running process x handler configurations",
  "signal_test.c raises a few signals one at a time in-process with _exit wrapped.",
  ["signal/sc_signal.c", "signal/sc_signal.h"],
  [("shutdown handler", "signal/sc_signal.c sc_signal_on_shutdown"), ("fatal handler re-raising with default action", "signal/sc_signal.c sc_signal_on_fatal")],
  ["wait status of the process", "bytes on the shutdown and log descriptors"])

p("C22", "Every enabled sink gets each message at or above the level, once and intact",
  "For any history of level changes, sink changes (standard output, file, callback), thread-name changes and messages, each message whose level is at least the current one is delivered exactly once to every enabled sink, in order, as one line carrying its timestamp, level, thread name, source location and exactly the formatted text; messages below the level, or when off, are delivered nowhere. On the standard streams, errors go to standard error and all other messages to standard output; thread names are cut at 31 bytes. A sink that fails is reported by the logging call and does not keep the message from the other sinks. A file that cannot be used, an initialisation that cannot create its lock and a termination that cannot close the file are reported as failures. Level names are accepted in any letter case and unknown names are refused without changing the level.",
  ["histories", "inputs", "configurations"],
  "all histories of configuration changes and messages x message contents",
  "log_test.c logs some messages and mostly does not look at what was written.",
  ["logger/sc_log.c", "logger/sc_log.h"],
  [("level filter and fan-out", "logger/sc_log.c sc_log_log"), ("line format", "logger/sc_log.c sc_log_print_header")],
  ["stdout capture, file contents, callback arguments"])

p("C23", "Log file rotation keeps the latest messages, in order, without loss",
  "With a log file and a previous-file name configured, the current file never keeps growing past its size limit by more than one message: it is moved to the previous-file name and a fresh file is started, and at all times the previous file followed by the current file is exactly the most recent messages in order, with nothing lost, duplicated or reordered since the earlier rotation. Re-opening an existing log appends to it and counts what is already there toward the limit. When a fresh file cannot be opened the failure is reported, what was logged before is kept, and logging goes on once a file is set again. This holds for each of several pairs of files used in turn.",
  ["histories", "inputs"],
  "all histories of messages (sizes 1..beyond the limit), re-initialisation and pre-existing file sizes",
  "log_test.c rotates once and does not compare contents.",
  ["logger/sc_log.c"],
  [("size accounting and rename", "logger/sc_log.c sc_log_file, sc_log_set_file")],
  ["contents of the two files after every message"])

p("C24", "Concurrent logging never mixes, loses or duplicates messages",
  "With several threads logging at once while sinks and levels are being changed, every line in the file and every callback invocation is one whole message with the logging thread's own name, each message at or above the level in force appears exactly once, messages of one thread appear in the order that thread logged them, and callbacks are never run concurrently. No interleaving causes a data race or deadlock.",
  ["schedules"],
  "thread schedules (perturbed) x message histories of several threads",
  "log_test.c starts threads but does not check the output.",
  ["logger/sc_log.c"],
  [("one global mutex around formatting and output", "logger/sc_log.c sc_log_mtx"), ("thread-local name", "logger/sc_log.c sc_log_set_thread_name")],
  ["file contents, callback sequence, ThreadSanitizer"])

p("C25", "Memory-mapped files mirror the file and flush what was asked",
  "A mapping over any offset and length of a file shows exactly the file's bytes there, is at least as long as requested with the file created readable and writable for its owner when that is asked for, extended when it is writable and too short and never shortened, and bytes stored in a shared writable mapping are the bytes later read from the file. Flushing, locking or unlocking a range covers at least every byte of that range, whatever its alignment, and only pages of it. Failures (missing file, bad sizes, unaligned offsets, refused system calls; an interrupted allocation is continued) are reported with a message, leave no descriptor or mapping behind, and do not damage the file.",
  ["inputs", "histories", "fault_sequences"],
  "all file sizes, offsets, lengths, protections, sync ranges and failing system calls",
  "mmap_test.c maps one file with one geometry.",
  ["memory-map/sc_mmap.c", "memory-map/sc_mmap.h"],
  [("open/extend/map", "memory-map/sc_mmap.c sc_mmap_init"), ("page-aligned msync", "memory-map/sc_mmap.c sc_mmap_msync")],
  ["file contents, arguments of msync/mlock, /proc/self/fd and maps balance"])

p("C26", "Sockets carry bytes faithfully and report addresses and failures truthfully",
  "Over TCP (IPv4/IPv6) and unix-domain connections made through the library, the receiver gets exactly the bytes sent, in order, whatever the chunking and however system calls are interrupted or return short counts, and end of stream is distinguished from nothing available yet. Blocking mode and timeouts apply as requested on listening, connecting and accepted sockets of every family, local and remote address texts of both ends match each other and the bound address, and an error (also of closing) never leaks a descriptor and leaves a readable message. A server that was stopped can listen on the same address again at once, also while connections of its predecessor linger, an IPv6 server leaves the IPv4 port free, of a name's addresses one of the asked family is preferred, and small TCP messages are not held back.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all chunkings and payloads x families x blocking modes x timeouts x injected system-call outcomes",
  "sock_test.c exchanges a few short messages, and failure injection only looks at return codes.",
  ["socket/sc_sock.c", "socket/sc_sock.h"],
  [("send/recv wrappers", "socket/sc_sock.c sc_sock_send, sc_sock_recv"), ("connect with timeout", "socket/sc_sock.c sc_sock_connect"), ("unix sockets", "socket/sc_sock.c sc_sock_bind_unix, sc_sock_connect_unix"), ("timeouts", "socket/sc_sock.c sc_sock_set_rcvtimeo, sc_sock_set_sndtimeo")],
  ["payload bytes, return codes, getsockopt/fcntl state, sc_sock_local_str/remote_str, open descriptors"])

p("C27", "Polling reports exactly the registered events of ready descriptors",
  "For any history of registering, extending, reducing and removing interest in any number of descriptors, and of making them readable, writable or closed, one wait reports exactly the descriptors that are ready for an event they are registered for (up to the configured maximum number of events per wait, the others in later waits), with the data they were registered with and the right event kinds (a closed or failed peer counts as readable and writable), and never one that was removed; edge-triggered descriptors are reported once per change. Any number of registrations, also from another thread during a wait, none is lost; removing an event not registered is harmless, a refused registration leaves the old one in force and a message, and a wait with nothing ready returns no events, and not before its timeout.",
  ["histories", "inputs"],
  "all histories of add / del / readiness changes over many descriptors, read, write and edge flags",
  "sock_test.c registers one or two sockets.",
  ["socket/sc_sock.c", "socket/sc_sock.h"],
  [("epoll registration bookkeeping", "socket/sc_sock.c sc_sock_poll_add, sc_sock_poll_del"), ("event translation", "socket/sc_sock.c sc_sock_poll_event, sc_sock_poll_wait")],
  ["sc_sock_poll_wait count, sc_sock_poll_event, sc_sock_poll_data"])

p("C28", "Pipes and service notifications deliver exactly what was written",
  "Bytes written to a library pipe are read back identically and in order in any chunking; each call returns the number of bytes it really transferred, interrupted calls are repeated, and a pipe that cannot be created or closed is reported with a message and leaks no descriptor. The reading end can be polled through its descriptor. A service notification sends exactly the given text as one datagram to the filesystem or abstract socket configured in the environment and to no other, fails with an error number when none is configured, the address is invalid or too long or the system refuses, and leaks nothing.",
  ["inputs", "histories", "fault_sequences"],
  "all payloads and chunkings, notification texts and socket addresses, interrupted calls",
  "sock_test.c writes one small message through a pipe and only tests failures of the notification.",
  ["socket/sc_sock.c"],
  [("pipe wrappers", "socket/sc_sock.c sc_sock_pipe_write, sc_sock_pipe_read"), ("systemd protocol", "socket/sc_sock.c sc_sock_notify_systemd")],
  ["bytes read, datagrams received by a stand-in supervisor"])

p("C29", "Threads, mutexes and condition signals synchronise without loss",
  "Every started thread runs its function exactly once with its argument and joining returns after it finished with its result; joining or terminating a never-started or already joined thread is harmless. Code under a mutex is mutually exclusive under any schedule, and a signal given to a condition, before or after the waiter arrives, is received exactly once, by one waiter and together with its data, unless a later signal replaces it before it is received; no signal is lost while a waiter sleeps, and none is invented, whatever the schedule or spurious wakeups. Failures of the underlying primitives are reported as documented, leak nothing, and leave the object safe to terminate.",
  ["schedules", "histories", "fault_sequences"],
  "perturbed schedules of several threads, all orders of signal and wait, failing primitives",
  "The tests signal a fixed number of times with sleeps between them.",
  ["thread/sc_thread.c", "mutex/sc_mutex.c", "condition/sc_cond.c"],
  [("done/data handoff under a mutex", "condition/sc_cond.c sc_cond_signal, sc_cond_wait"), ("start/join bookkeeping", "thread/sc_thread.c"), ("mutex wrapper", "mutex/sc_mutex.c")],
  ["received data, protected counter, return values, ThreadSanitizer"])

p("C30", "Time readings and sleeps are exact conversions of the system clocks",
  "For every value the system clocks can report, the wall-clock and monotonic readings in milliseconds and nanoseconds are the exact conversion of that value (truncated to the unit), the monotonic readings never decrease, and wall readings use the wall clock and monotonic readings the monotonic clock. A sleep of n milliseconds requests exactly n milliseconds and, however often it is interrupted, continues for what remains, and reports other failures.",
  ["inputs", "fault_sequences"],
  "all clock values (seconds and nanoseconds at their limits), all sleep lengths, all interruption patterns",
  "time_test.c compares coarse differences of real time.",
  ["time/sc_time.c"],
  [("timespec conversion", "time/sc_time.c sc_time_ms, sc_time_mono_ns"), ("EINTR continuation", "time/sc_time.c sc_time_sleep")],
  ["return values under a stand-in clock, requested sleep intervals"])

p("C31", "Performance counters report the right event with the right value and scale",
  "For any sequence of starting, pausing and ending a measurement and any values, multiplexing ratios and failures the kernel reports, each printed counter line carries the counter's own name with the value the kernel counted while the measurement ran, scaled up for the share of time the counter was really running, and that share; the elapsed time printed is exactly the time in which the measurement ran (not paused), every measurement starts from zero and closes its counters. A counter that cannot be opened, enabled, disabled or read, or pausing or ending before starting, ends the process with a message and without a report.",
  ["inputs", "histories", "fault_sequences"],
  "all counter values and enabled/running times x start/pause/end histories x failing system calls, under a simulated kernel",
  "perf has no test at all.",
  ["perf/sc_perf.c", "perf/sc_perf.h"],
  [("counter table and scaling", "perf/sc_perf.c sc_read, sc_perf_end, sc_perf_start, sc_perf_pause")],
  ["printed report, system-call log"])

p("C32", "Memory and work stay proportional to what a container holds",
  "However long its history, an array, queue, heap, map, timer or buffer never holds more memory than a constant multiple of the most elements (bytes for a buffer that is compacted) that were in it at any one time, so a long-lived container whose contents stay bounded never grows further; n additions one after the other cause only a logarithmic number of allocations (for a buffer at most one per page). Clearing keeps the memory: filling a cleared array, queue, heap, map or buffer up to its former size needs no allocation, nor does filling a buffer again that was read to its end and compacted. A heap, map or buffer initialised for a number of elements (bytes) then takes about so many (half of it for a heap, the load factor's share for a map) without allocating and holds no more than a constant multiple of it. Removing, reading, compacting, cancelling and expiring never allocate. Operations on string-keyed maps with any regular family of keys, and insertions, successful lookups and removals from the end on dense integer keys, cost no more than a constant multiple of those of a standard hash table.",
  ["histories", "inputs"],
  "long bounded-occupancy histories (steady, waves, growth, clear and refill) of all containers; families of tens of thousands of similar keys",
  "The tests check contents, never the memory held or the number of allocations, and use histories far too short to notice growth.",
  ["array/sc_array.h", "queue/sc_queue.h", "heap/sc_heap.c", "map/sc_map.c", "timer/sc_timer.c", "buffer/sc_buf.c"],
  [("growth", "map/sc_map.c sc_map_remap_##name, queue/sc_queue.h sc_queue_expand, array/sc_array.h sc_array_add, heap/sc_heap.c sc_heap_add, timer/sc_timer.c expand, buffer/sc_buf.c sc_buf_reserve"), ("clear without freeing", "all *_clear"), ("string hash", "map/sc_map.c murmurhash")],
  ["bytes held and number of allocations, CPU time relative to a reference"])

p("C33", "Distinct objects are independent, in one thread or in many",
  "No operation on one object has any effect on the results of operations on another object: scripts of operations on separate objects of any of the libraries (maps, buffers, arrays, queues, heaps, lists, timers, strings and tokenisers, INI parsing, URIs, options, checksums, formatters, size and random utilities, mappings, sockets, service notifications, pipes, polls, mutexes and conditions) give the same results when run at the same time by several threads, or with one running between the operations and inside the callbacks of another, as each gives when run alone, without data races. An error text of a poll is the one of the calling thread's own last failure.",
  ["schedules", "histories"],
  "all interleavings of scripts over separate objects in 2..4 threads, and nestings in one thread",
  "Every test runs one library in one thread (except the logger), one object at a time.",
  ["map/", "buffer/", "array/", "queue/", "heap/", "linked-list/", "timer/", "string/", "ini/", "uri/", "option/", "crc32/", "signal/", "sc/", "memory-map/", "socket/", "mutex/", "condition/", "time/"],
  [("no hidden shared state", "ini/sc_ini.c sc_ini_parse (line and section buffers), string/sc_str.c sc_str_token_begin (save pointer), socket/sc_sock.c sc_sock_poll_errstr (per thread)")],
  ["results of every operation, ThreadSanitizer"])

p("C34", "All memory goes through the allocator the user configured",
  "When the libraries are built with SC_HAVE_CONFIG_H and a config.h that names other allocation functions, every block a map, buffer, array, queue, heap, timer, string, URI or poll uses comes from the configured functions of that library and is resized and given back only through the same library's functions, exactly once; the C allocator is never called, and nothing depends on blocks keeping their address or on fresh memory being zero unless it came from calloc.",
  ["histories", "configurations"],
  "all operation histories of the nine allocating libraries under a foreign allocator",
  "The test build never defines SC_HAVE_CONFIG_H, so both allocators are always the same there.",
  ["map/sc_map.h", "buffer/sc_buf.h", "array/sc_array.h", "queue/sc_queue.h", "heap/sc_heap.h", "timer/sc_timer.h", "string/sc_str.h", "uri/sc_uri.h", "socket/sc_sock.h"],
  [("allocator macros", "*/sc_*.h under SC_HAVE_CONFIG_H and every use of them")],
  ["calls of the configured and of the C allocator"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
