p('P01', 'Frame decoding follows RFC 6455 and never touches memory outside its input',
  '''Decoding a frame at any offset of any byte buffer reads nothing outside the buffer, yields exactly the flags, opcode, lengths, key and unmasked payload RFC 6455 assigns to those bytes,
  and advances the offset to the end of that frame. When the buffer holds only part of a frame the offset ends beyond the buffer, no payload is invented, and nothing is read out of bounds, whatever length the bytes announce.''',
  'inputs', 'Every byte string of up to 16 (thorough 20) bytes at every offset; every content for selected larger frame shapes; every 64-bit length field.',
  'The tests decode a handful of well-formed frames; hostile lengths, truncation points and offsets are never tried.',
  'src/frame.c include/frame.h', [('length and bounds arithmetic of the frame parser', 'src/frame.c WSS_parse_frame')],
  'h_parse.c gives the parser an exact-size buffer of symbolic bytes; a reference decoder (rfc.h) written from RFC 6455 5.2 is the oracle; CBMC pointer checks are the memory-safety oracle.')
p('P02', 'Serialised frames are minimal, unmasked, RFC 6455 encodings that round-trip',
  '''Serialising a frame gives exactly the minimal, unmasked RFC 6455 encoding of its flags, opcode and payload, and decoding it again gives the same frame and consumes every byte.
  Serialising a list of frames gives their concatenation in order; when a frame of the list is invalid or memory runs out nothing is returned and nothing leaks.''',
  'inputs fault_sequences', 'Every flag, opcode and payload content for the listed payload lengths (0..300 around the length-form boundaries, 65534..65537); every single allocation failure.',
  'Tests serialise a few fixed frames; boundaries 125/126, 65535/65536 and allocation failures are sampled or absent.',
  'src/frame.c', [('length form selection and copying', 'src/frame.c WSS_stringify_frame, WSS_stringify_frames')],
  'h_frame.c modes 0, 1, 7, 10: symbolic frames with concrete sizes are serialised by the real code; the reference decoder and the real parser read the result back. Payloads around 65536 are checked with blocks cut off after 64 bytes (header arithmetic only).')
p('P03', 'Fragmenting a message preserves its bytes, order, opcode and limits',
  '''A message of any length is turned into ceil(length/limit) frames (at least one), each within the configured fragment limit, whose payloads concatenate to exactly the message.
  Only the first carries the message opcode, the others are continuation frames, FIN is on exactly the last, and no reserved or mask bit is set; if memory runs out nothing leaks.''',
  'inputs configurations fault_sequences', 'Every content and opcode for 19 (length, limit) pairs covering multiples, remainders, single byte and over-limit cases; every single allocation failure.',
  'Tests check one or two fragment sizes and never look at the opcode of later fragments.',
  'src/frame.c', [('fragment loop', 'src/frame.c WSS_create_frames')], 'h_frame.c mode 2: the frames produced are compared field by field and byte by byte with the message.')
p('P04', 'Unmasking is exact for every length on every compiled SIMD variant',
  '''Every payload byte i of a masked frame is delivered XORed with byte i mod 4 of the masking key, for every payload length and whichever vector instruction set the build uses,
  without reading or writing outside the payload.''',
  'inputs configurations', 'Every key and content for payload lengths around every multiple of the vector width up to 193, in the AVX2, SSE and scalar builds.',
  'Tests run one build (the host CPU) with a few lengths.', 'src/frame.c', [('vector loop and tail handling', 'src/frame.c unmask')],
  'h_frame.c mode 9; each SIMD variant is encoded with models of the intrinsics that setup compares with the CPU. The AVX-512 variant cannot be replayed on this CPU and is not encoded.')
p('P05', 'Text payloads are accepted exactly when they are well-formed UTF-8',
  '''The validator accepts a byte string exactly when it is well-formed UTF-8 (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes), for every length and position,
  on every compiled SIMD variant, without reading outside the string.''',
  'inputs configurations', 'Every byte string up to 66 bytes (quick, AVX2), up to 128 bytes (thorough), plus every 5-byte sequence across a vector boundary, in three SIMD variants.',
  'Nothing in the test suite exercises the validator; 256^n strings cannot be enumerated.', 'src/utf8.c include/utf8.h', [('SIMD range/continuation checks', 'src/utf8.c utf8_check')],
  'h_utf8.c compares the real validator with the definition (Unicode table 3-7) on fully symbolic strings.')
p('P06', 'Control frames sent by the server are valid and carry the right content',
  '''Close frames the server creates hold a status code in network byte order and at most 123 bytes of the given reason, pongs echo the ping payload exactly, and pings and pongs are single, final, unmasked control frames of at most 125 bytes.
  Creating them reads nothing beyond the data given and leaks nothing when memory runs out.''',
  'inputs fault_sequences', 'Every close code 1000..1016; close messages of 0..200 arbitrary bytes; ping payloads of 0..125 arbitrary bytes; every single allocation failure.',
  'Tests use fixed NUL-terminated reasons and one ping.', 'src/frame.c', [('control frame builders', 'src/frame.c WSS_closing_frame, WSS_ping_frame, WSS_pong_frame, WSS_create_frames')],
  'h_frame.c modes 3-8.')
p('P07', 'Request parsing is memory-safe and yields exactly the fields of the request',
  '''Whatever bytes a client sends as its HTTP request, the request parser terminates, touches no memory outside the request and holds nothing afterwards but the header and the extensions it accepted, also when memory runs out.
  It accepts a request only if it is a GET of HTTP/1.1 for a relative or ws/wss/http/https target within the limits, every line ends with CRLF and an empty line ends the header; otherwise it reports the matching status (400, 405, 413, 414, 431, 505), never for another reason.
  The fields of an accepted request are those of its lines: method, target, version, and for each known header name (in any case) the value without surrounding blanks; the highest supported WebSocket version offered; the first available subprotocol listed;
  and every available extension offered is opened with exactly its parameters, in order, until it accepts, at most once.''',
  'inputs configurations fault_sequences', 'Request templates of every header, list and limit, in which the marked characters (up to 3 per request) are arbitrary ordinary characters (no control character, space or , ; : =) and blanks, separators and line ends are enumerated; every request of up to 3 (thorough: 4) arbitrary bytes; each single allocation failure while two extensions are negotiated.',
  'The tests parse a fixed list of requests; empty or odd header values are not among them.', 'src/header.c include/header.h', [('tokenisation of request and header lines', 'src/header.c WSS_parse_header')],
  'h_header.c runs the real parser on each template and compares the result with a reference that reads the structure off the template; string functions of the C library are modelled (harness/rt/vp_wild.h), in such a way that scanning takes one path for all ordinary characters while every comparison with a word stays symbolic.')
p('P08', 'The WebSocket upgrade is granted only to a valid, allowed request',
  '''A parsed request is upgraded (101) exactly if its target is no http/https URI and matches the configured pattern, its Host and Origin are in the configured lists (where there are such), its Upgrade value begins with websocket and one of its Connection tokens with upgrade (in any case),
  its WebSocket version is 7, 8 or 13 and its key decodes to 16 bytes. Every other request gets an error status that names something it lacks: 400 host, 403 origin, 404 target, 426 upgrade, connection or key, 500 pattern failure, 501 version; a valid request is never refused.''',
  'inputs configurations', 'Every version; each field absent or of the listed lengths with arbitrary characters at the marked places; lists of up to two hosts and origins, or none; every result of the pattern match and of decoding the key.',
  'Tests try a few valid and invalid handshakes against one configuration.', 'src/header.c include/header.h', [('upgrade decision', 'src/header.c WSS_upgrade_header')],
  'h_upgrade.c: the real decision function runs on a header structure with symbolic contents and is compared with the conditions above; regexec and the base64 decoder (P10) answer arbitrarily.')
p('P09', 'Every HTTP request gets one well-formed response; a handshake the right key',
  '''A request that arrives in any pieces is answered once, when its empty line has arrived, by a complete HTTP/1.1 response without stray bytes: status line with the status the request deserves, header lines, and a body of exactly Content-Length bytes; 426 and 501 name the versions, the icon is served byte for byte.
  The handshake response carries Upgrade, Connection, the accept value of the client's key and exactly the negotiated subprotocol and extensions; then the chosen (or the echo) subprotocol is told of the connection once with its target and cookies. A refused request leaves nothing behind: extensions it opened are closed and the connection can send another request.
  The accept value is the base64 SHA-1 of key and GUID; a read error is answered with 500, and when memory runs out or the queue is full nothing is leaked.''',
  'inputs configurations fault_sequences', 'Requests of every status (101 with and without subprotocol, one or two extensions, accepted parameters, cookies, allow-lists; 200, 400, 403, 404, 405, 413, 414, 426, 431, 500, 501, 505), with arbitrary characters at the marked places; listed splits into up to 5 pieces including every split of the final empty line; an interruption or error of each read; each of the first allocations failing.',
  'No test covers the responses or a request that arrives in pieces.', 'src/worker.c src/ssl.c', [('reading and answering the handshake', 'src/worker.c WSS_read handshake *_response respond'), ('accept value', 'src/ssl.c WSS_base64_encode_sha1')],
  'h_http.c: the real read loop, request parser, decision and response builders run against a modelled socket and queue; the response is parsed by the harness as a client would. Date, locale, regular expression matching and plug-ins are stand-ins; SHA-1 is an arbitrary function of its exact input (h_accept.c checks what is fed to it and what becomes of the digest).')
p('P10', 'Base64 encoding and decoding are exact, inverse and memory-safe',
  '''Encoding any byte string gives its RFC 4648 base64 form and decoding that form gives the bytes back; decoding any text decodes exactly the characters before the first one outside the alphabet.
  Neither touches memory outside its arguments, and when memory runs out both return nothing and leak nothing.''',
  'inputs fault_sequences', 'Every byte string of 0..10, 16, 20, 21 and 24 bytes to encode; every string of 0..8 (thorough 12) characters to decode; every single allocation failure.', 'No test covers base64; only one key length occurs in a handshake.', 'src/b64.c include/b64.h',
  [('base64 coder', 'src/b64.c')], 'h_b64.c: real coder against the bit-level definition on symbolic bytes.')
p('P11', 'The receive path enforces the protocol and delivers messages intact',
  '''Whatever frames a client sends and however the bytes are split over reads, the server hands the application exactly the complete, correctly masked messages in order (text only if valid UTF-8), answers each ping with one pong of the same content and each protocol violation with the matching close code, and delivers nothing after a close.
  Unfinished frames and messages are kept intact until more data arrives, and no memory is lost or touched out of bounds.''',
  'inputs histories configurations', 'Every content and header bits of up to three frames with small payloads over one to three reads, at every split point listed; size and count limits of the configuration.',
  'No test covers the receive loop at all; the autobahn suite samples schedules of whole connections.', 'src/worker.c src/frame.c', [('receive loop', 'src/worker.c WSS_read, read_internal')],
  'h_read.c: WSS_read with the real parser and a stubbed socket; a sequential reference receiver written from RFC 6455 predicts deliveries, pongs and the close code.')
p('P12', 'Queued messages reach the socket completely, in order and exactly once',
  '''However the socket splits, delays or interrupts writes, the bytes sent on a connection are the queued messages, each complete and in queue order, with nothing repeated, skipped or interleaved.
  Unsent data is kept and sending continues when the socket becomes writable; after a close frame has been sent completely the connection is closed, and a failed write closes it too.''',
  'schedules histories fault_sequences', 'Every partial-write pattern (any number of bytes accepted, EAGAIN, EINTR, error) over up to three queued messages and up to three wake-ups.',
  'No test covers the send loop; partial writes do not occur on loopback.', 'src/worker.c src/session.c', [('send loop', 'src/worker.c WSS_write')],
  'h_write.c: WSS_write with a write() stub that accepts a symbolic number of bytes; the recorded stream is compared with the queue.')
p('P13', 'The outgoing queue is a lossless FIFO under concurrent producers',
  '''However producers and the consumer of a connection's message queue interleave, every accepted message is taken exactly once, in the order its slot was acquired, a slot is never handed to two producers, and unfinished slots are never consumed.
  When the queue is full the producer is told so and nothing is overwritten.''',
  'schedules histories', 'Every interleaving (at atomic-operation granularity, one operation preempted at any of its accesses by up to three whole operations of others) of two or three producers and a consumer on rings of 2..4 slots, one-slot requests as the server makes; every history of sequential operations up to the stated length.',
  'No test covers the queue; races appear only in specific interleavings.', 'src/ringbuf.c include/ringbuf.h', [('worker records and atomic next pointer', 'src/ringbuf.c ringbuf_acquire, ringbuf_produce, ringbuf_consume')],
  'h_ring.c: the atomic operations of the real code are interception points at which the solver may run another whole operation.')
p('P14', 'Every accepted pool task runs exactly once and shutdown is orderly',
  '''Every task accepted by the worker pool is run exactly once, in submission order; a full queue or a pool being shut down refuses the task with the matching error and never runs it.
  Graceful shutdown runs every accepted task first, immediate shutdown starts no new one, and the pool's locks are always released.''',
  'schedules histories fault_sequences', 'Every interleaving of up to three workers, up to four submissions (by the server or by tasks) and a shutdown at lock/condition granularity for queues of 1..3; failures of creation calls.',
  'No test covers the pool; lost wakeups and shutdown races need specific schedules.', 'src/pool.c include/pool.h', [('queue, count and condition variable', 'src/pool.c threadpool_add, threadpool_destroy, threadpool_thread')],
  'h_pool.c: real pool code; the pthread calls are redirected to a scheduler driven by symbolic choices: a worker that waits, finished a task or is about to take the lock leaves the thread function and is continued by calling it again (it has no other state there).')
p('P15', 'Sending a message queues it once, wakes the writer and keeps accounts balanced',
  '''A message sent to a live connection is framed, passed through the negotiated extensions and queued exactly once, and is written at once when the connection is idle, else left to whoever is using it; output the socket does not take is continued when it is writable. A message that cannot be sent (unknown or not yet handshaked connection, full queue, no memory) leaves no trace.
  On every path, including memory exhaustion and full queues, the connection's count of running jobs returns to its old value and no lock stays held, so that closing it can never hang.''',
  'inputs fault_sequences histories', 'Every content of messages of 0 to 20 bytes in one to three fragments, opcodes 1, 2, 9 and 10, every state of the connection and change of it while the sender waits, every single failure of an allocation, queue or session lookup.',
  'No test covers sending; the error paths never run.', 'src/message.c src/session.c', [('job accounting', 'src/message.c WSS_message_send, WSS_message_send_frames; src/session.c WSS_session_jobs_*')],
  'h_message.c: real message.c, frame.c and job counter with the harness at session lookup, locks, queue, send loop, event layer and clock.')
p('P16', 'The connection table finds exactly the live connections',
  '''After any sequence of adding, finding and removing connections, a lookup returns the connection most recently added under that descriptor if it has not been removed, and nothing otherwise; iterating visits each live connection exactly once.
  Adding a descriptor that is present is refused and failures leave the table unchanged.''',
  'histories fault_sequences', 'Every history of up to three (thorough four) operations on three descriptors, every single allocation or lock failure; the vendored hash table is replaced by its contract.',
  'No test covers the table.', 'src/session.c include/session.h', [('hash table and lock', 'src/session.c')], 'h_session.c: the hash table macros are replaced by a list with the same contract; operations are chosen symbolically.')
p('P17', 'Removing a connection releases everything it owns exactly once',
  '''Removing a connection (alone or with all others) releases everything it holds (handshake data, queued messages, buffered input, pong, unfinished fragments, TLS state) exactly once, closes its descriptor exactly once after telling its subprotocol and extensions, and leaves nothing allocated and other connections untouched.
  The count of running jobs is exact, waiting for it ends only when no job runs, and exactly the first caller gets to disconnect a connection.''',
  'histories configurations', 'Every combination of present and absent resources of one of two connections; counters up to three, spurious wake-ups, failing locks.', 'No test covers teardown; leaks and double frees depend on the state at removal.', 'src/session.c src/worker.c',
  [('session destruction', 'src/session.c WSS_session_delete')], 'h_session.c: a session with symbolically chosen resources is removed; allocation accounting and pointer checks decide.')
p('P18', 'Connection work is dispatched by state and ends the connection cleanly',
  '''For every state of a connection and every socket event the server performs the matching step (accept, TLS handshake, read, write or close), leaves no lock held and the job count unchanged, and a connection that stays open listens again for exactly what it needs: writability while output is unsent, else data.
  A connection is closed only when the client, an error, a time-out or a close frame demands it, then exactly once, with the application told exactly once, after its running jobs ended and with everything released; no connection is touched after it was destroyed, even when another thread disconnects it. Accepting goes on until no connection is pending, and each accepted connection is served or closed.''',
  'histories fault_sequences schedules', 'One work item: every state and event, one read or up to two writes with every socket or TLS outcome, every time-out up to 5 s, another thread disconnecting at any lock operation; up to two accepted connections with every failing allocation and interruption. HTTP requests are outside (P07-P09).', 'No test runs the worker.', 'src/worker.c src/session.c src/ssl.c', [('dispatcher, disconnect and accept', 'src/worker.c WSS_work, WSS_disconnect, WSS_connect')],
  'h_work.c: real worker.c, session.c, ssl.c, frame.c, message.c with sockets, event layer, queue, clock and the TLS library as the harness.')
p('P19', 'Configuration loading takes over exactly the values given and never crashes',
  '''Loading a configuration document either fails with the error that fits (no file, no JSON, no object, an invalid list element, a plug-in entry without a file, no port, no memory) and leaves nothing behind, or sets every documented option to the value the document gives it, keeps the default where the document gives none or one of another type, and also allows every listed host with each of the server's ports.
  Freeing the configuration afterwards, once or again, releases everything exactly once.''',
  'inputs configurations fault_sequences', 'Documents in which every setting has each of the eight JSON kinds or is absent, in two orders, with arbitrary values; up to three list elements and plug-in entries of every kind with texts of up to 3 bytes; chosen ports of every number of digits; every single failing allocation. Numbers that do not fit the option, documents that name a member twice and the JSON text itself (P20) are outside.',
  'Tests load a few files; other kinds, orders and allocation failures are not among them.', 'src/config.c src/json.c', [('configuration loader', 'src/config.c WSS_config_load, WSS_config_free')],
  'h_config.c: real config.c and json_value_find over documents built by the harness; reading the file, parsing and releasing the document are the harness.')
p('P20', 'The JSON parser is total and faithful',
  '''For every input text the parser terminates, reads only the given bytes, and returns either an error or the value the text denotes; strings (escapes and Unicode included), numbers, nesting and object members come out exactly, and freeing the value releases everything.''',
  'inputs fault_sequences', 'Every text up to the stated number of arbitrary bytes, plus templates with arbitrary string bodies and numbers; every single allocation failure.',
  'Only configuration files of one shape are parsed by the tests.', 'src/json.c', [('two-pass state machine', 'src/json.c json_parse_ex')], 'h_json.c: symbolic text; reference recogniser for the small grammar.',
  na='''The parser is a two-pass state machine of some 700 lines whose value tree, string areas and flags all depend on every preceding byte: with an arbitrary text every path of both passes reaches every object, and the encoding of the first few bytes already exceeds memory and time. No check of useful bound was found; P19 therefore starts at the parsed document.''')
p('P21', 'The request-target pattern names exactly the configured resources',
  '''From the configured hosts, paths and queries a server builds, and compiles as a case-sensitive extended expression, the pattern that accepts an optional ws:// or wss:// (as the server uses TLS or not) with one of the hosts and optionally the port of the server, then / and optionally one of the paths, then optionally ? and one or more of the queries joined by &; nothing configured means no restriction.
  When memory runs out or the expression is invalid, starting fails, nothing is leaked and the server is never left without the restriction; no buffer is overrun.''',
  'configurations inputs fault_sequences', 'Up to three hosts, paths and queries of 0..3 arbitrary bytes each (other than control characters, space and , ; : =), ports of every number of digits, with and without TLS; every single failing allocation and a failing compilation. How regexec matches the pattern is outside.',
  'Tests never build the pattern.', 'src/http.c', [('pattern generation', 'src/http.c generate_request_uri, WSS_http_regex_init')],
  'h_uri.c: real pattern generation on symbolic configuration strings; the harness is the expression compiler and compares the text it is given with the documented pattern.')
p('P22', 'Echo answers only the sender and broadcast reaches every other client once',
  '''The echo subprotocol sends each message back, unchanged and with its opcode, to the sender only; broadcast sends it unchanged to every other connected client exactly once and never to the sender or to a client that has gone, whatever the order of connects, disconnects and messages and whichever other clients come or go meanwhile.
  A failing allocation only leaves that client without messages, no lock stays held, and nothing is left at the end.''',
  'histories schedules inputs fault_sequences', 'Every history of up to four (thorough five) callbacks over three clients and one stranger, chosen ones up to six, messages of 0..8 arbitrary bytes, up to two connects or disconnects of others at any moment the plug-in takes its lock; every single failing allocation or lock call.', 'No test covers the plug-ins.', 'subprotocols/echo/echo.c subprotocols/broadcast/broadcast.c',
  [('client list and fan-out', 'subprotocols/broadcast/broadcast.c'), ('echo', 'subprotocols/echo/echo.c onMessage')], 'h_sub.c: real plug-in code, recording send callback, lock and hash-table models; the hash table itself (vendored uthash) is replaced by its contract.')
p('P23', 'Message compression is transparent and negotiation is exact',
  '''Negotiating permessage-deflate accepts exactly the valid parameter combinations and answers with parameters the client allowed; messages compressed by one side are delivered decompressed unchanged, uncompressed messages pass unchanged, and no memory or lock is lost when compression fails.''',
  'inputs configurations fault_sequences', 'Offers with every parameter present or absent and arbitrary values; zlib results chosen by the solver.', 'No test covers the extension.', 'extensions/permessage-deflate/permessage-deflate.c',
  [('extension callbacks', 'extensions/permessage-deflate/permessage-deflate.c')], 'h_deflate.c: real extension with zlib modelled by its interface contract.',
  na='''The extension negotiates with POSIX regular expressions over the offer and moves the payload through zlib, both outside this repository and far outside what can be encoded; with both replaced by stand-ins the check would decide little of the statement (round trips, accepted offers).''')
p('P24', 'Clean-up closes exactly the idle connections and pings the others',
  '''In a round of the clean-up thread a websocket connection without activity for at least the client timeout is closed, after its running jobs ended: application and extensions are told once, it is taken from the event layer, told to try again later (unless output is pending) and released. Every other connection, also one that becomes active during the round, that another thread is closing or that has not finished its handshake, stays open.
  If pings are on, each idle established connection gets one ping of at most 125 fresh bytes through its queue; busy ones are not disturbed or waited for. No lock is held while waiting, rounds come as often as configured, and the thread ends when told to.''',
  'histories inputs schedules fault_sequences', 'Rounds over one to three connections in the listed combinations of state, TLS, running jobs, a busy lock, a full queue, pending disconnect and earlier ping; every timeout -1..5000 ms and last activity up to 6 s ago or in the future (whole seconds plus listed nanoseconds); every ping content and socket outcome; failing allocations.', 'No test runs the clean-up thread.', 'src/server.c src/session.c src/message.c', [('clean-up round', 'src/server.c WSS_cleanup, cleanup_session')],
  'h_clean.c: the real clean-up thread for one round, then told to stop; clock, poll, sockets, queue and send loop are the harness; locks are tracked.')
p('P25', 'Allocation wrappers hand out zeroed memory and resize without losing data',
  '''Memory obtained from the allocation wrappers is zero-filled; resizing keeps the old content up to the smaller size, zero-fills growth, and on failure releases the old block; releasing resets the pointer and tolerates NULL.''',
  'inputs fault_sequences', 'Every size 0..9, every pair of old and new sizes 0..7, arbitrary content, every allocation call failing or not; debug and release builds of the wrappers, both allocators.', 'Tests try a few sizes and cannot make allocation fail.', 'src/alloc.c include/alloc.h', [('wrappers', 'src/alloc.c')],
  'h_alloc.c: the real wrappers over a model allocator that returns arbitrary content or NULL.')
p('P26', 'Socket events are re-armed and handed to the pool without loss',
  '''Every event reported for a connection is handed to the worker pool exactly once with the matching kind (retrying while the pool is full), connection descriptors are armed one-shot for exactly the event requested, and setup failures are reported; tearing the event layer down closes every pipe end once.''',
  'schedules fault_sequences inputs', 'Rounds of up to two (thorough three) events with every mask and descriptor, every sequence of pool answers with up to two retries, every failure and interruption of the system calls (epoll variant).', 'No test runs the event loop.', 'src/event.c', [('event dispatch', 'src/event.c WSS_poll_delegate')],
  'h_event.c: real event layer with stubbed epoll/poll and pool.')
p('P27', 'TLS reads and writes keep the byte stream intact across retries',
  '''Over TLS exactly the queued bytes are sent, in order, whatever the library reports: partial progress is continued, a write that has to wait is repeated unchanged when the connection is ready for what the library waits for, and after an error or a closed stream nothing is written any more and the connection is closed.
  The messages received are those of the stream however it is cut into TLS reads; a read that first has to write, finds no more data or a closed stream loses nothing and goes on as soon as possible, and a failed read closes the connection.''',
  'fault_sequences histories', 'Queues of up to three messages of up to 4 bytes with every sequence of partial writes and up to two waits, errors or closed streams; single, fragmented and ping-interrupted messages in up to three reads with a wait for writing before each read, an error of each read, or a closed stream at the end.', 'No test covers TLS.', 'src/ssl.c', [('TLS read/write', 'src/ssl.c WSS_ssl_read, WSS_ssl_write_partial')],
  'h_write.c and h_read.c with TLS=1: the real send and receive loops run over the real TLS functions; the OpenSSL calls answer as the solver chooses.')
p('P28', 'SHA-1 digests are those of FIPS 180-4',
  '''The digest computed for any byte string, fed in any number of pieces, is the SHA-1 digest of FIPS 180-4.''', 'inputs', 'Messages up to two blocks, all splits into two pieces.', 'Only whole handshakes exercise it.', 'src/sha1.c include/sha1.h',
  [('block function and padding', 'src/sha1.c')], 'h_sha1.c: real code against a reference with the padded block and compression compared per word.',
  na='''Equality of 80 dependent rounds of additions and rotations with a reference is out of reach of the solvers for a symbolic block unless the reference is written in the same shape; besides, the repository's default build takes SHA-1 from OpenSSL (USE_OPENSSL) and does not call src/sha1.c.''')
p('P29', 'String utilities are exact and memory-safe',
  '''Loading a file yields its exact bytes, hexadecimal formatting and list membership are exact for every input; a failing file operation or allocation is reported without text, leak or an unclosed file, and nothing outside the arguments is touched.''', 'inputs fault_sequences',
  'Every content up to the stated sizes; every failing system call.', 'Tests use a few files and strings.', 'src/str.c include/str.h', [('string helpers', 'src/str.c')], 'h_str.c: real helpers with stubbed file calls.')
p('P30', 'Plug-in registries find exactly the loaded subprotocols and extensions',
  '''After loading the configured plug-in files, looking up a subprotocol or extension finds exactly the plug-in whose file name, up to its first dot, is the name asked for, with every callback in its place; any other name finds nothing. A file that cannot be opened or lacks a required function is skipped and closed again without affecting the others.
  Each plug-in gets the server's allocators and then its own configuration once, is told once at the end before its library is closed, and loading never writes outside its buffers nor leaks, whichever allocation fails.''', 'histories fault_sequences configurations inputs',
  'Up to two configured files from name templates with arbitrary bytes (names of 1..4 bytes, distinct), each present, absent or lacking any one function; every queried name of the stated length; every failing allocation. Python modules (PyInit) are outside.', 'Tests load a few real libraries.', 'src/subprotocols.c src/extensions.c', [('registries', 'src/subprotocols.c WSS_load_subprotocols, src/extensions.c WSS_load_extensions')],
  'h_plugin.c: real registry code with the dynamic loader stubbed; the hash table itself is replaced by its contract.')
