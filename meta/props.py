import sys
PS = 'path-sensitive static dataflow over the LLVM IR (typestate / gate rule, helpers inlined, no execution)'
NOTE = 'Sound for the listed constructs up to the engine\'s abstraction: all CFG paths of every function are covered, loops widened, callees by summary; trusts clang\'s IR, the external-function models in lib/psim.py and that objects reached through differently typed fields do not alias.'
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=PS, note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


prop('C01', 'Locks are balanced on every path',
     'Whatever input arrives and whichever call fails, every mutex or read/write lock a library function takes is released before that function returns, and no lock is released that the path does not hold. The only functions that may return holding (or release on behalf of the caller) are the public dictionary lock and unlock calls.',
     ['inputs', 'fault_sequences', 'schedules'], 'all control-flow paths of all library functions, including every error exit',
     'A leaked lock shows up only on the error path that leaks it, and only when somebody takes the lock again; tests drive the success paths.',
     ['src/onion/poller.c', 'src/onion/sessions_sqlite3.c', 'src/onion/sessions_redis.c', 'src/onion/sessions_mem.c', 'src/onion/dict.c', 'src/onion/onion.c', 'src/onion/response.c', 'src/onion/random-gnutls.c'],
     [('lock/unlock pairs', 'every pthread_mutex/rwlock and dictionary lock call')])
prop('S01', 'Exported directories are never escaped',
     'A handler that exports a local directory only ever opens, lists or sends a file whose fully resolved name (symbolic links and dot-dot followed) is the exported directory itself or lies below it, ending the match at a path component boundary, so a sibling whose name merely starts alike is refused. The exported directory is itself fixed as a resolved name when the handler is created.',
     ['inputs', 'configurations'], 'every request path, link layout and exported directory',
     'Tests try a handful of dot-dot paths; the property quantifies over every path and directory layout.',
     ['src/onion/handlers/exportlocal.c'], [('realpath + prefix comparison', 'export local handler')])
prop('S02', 'WebDAV touches only files its permission check approved',
     'The WebDAV handler opens, lists, creates, moves or deletes a path only after the permission checker has accepted that very path (source and destination alike) on the same request. The default checker accepts only names that resolve (or, for a resource that does not exist yet, whose parent directory resolves) to the shared directory or below it, at a component boundary, and is the one installed unless the application supplies its own.',
     ['inputs', 'histories'], 'every method, path, Destination header and directory layout',
     'There is one WebDAV smoke test; escapes need particular path/destination combinations.',
     ['src/onion/handlers/webdav.c'], [('check_permissions callback', 'webdav handler'), ('default checker', 'onion_webdav_default_check_permissions')])
prop('S03', 'PAM-protected handlers run only for authenticated users',
     'A handler wrapped by PAM authentication is invoked only if PAM accepted the credentials of this request in all three steps (start, authenticate, account management) or the session was already marked as logged in. A session is marked as logged in only after such acceptance, and every other request is answered with the unauthorized status.',
     ['inputs', 'fault_sequences', 'histories'], 'every Authorization header, PAM result and session state',
     'Tests cannot drive PAM; nothing exercises the handler.',
     ['src/onion/handlers/auth_pam.c'], [('authorize', 'PAM start/authenticate/acct_mgmt'), ('login mark', 'session key checked before PAM')])
prop('S04', 'A request never adopts a session the store does not know',
     'The session identifier attached to a request is either freshly generated by the server or one for which the session store returned data during this request; an identifier merely sent by the client is never adopted. The session data attached to a request is always data the session store returned, for the identifier attached with it.',
     ['inputs', 'histories'], 'every cookie header and store content',
     'Tests use well-behaved cookies; fixation needs an unknown identifier at the right moment.',
     ['src/onion/request.c', 'src/onion/sessions.c'], [('cookie parsing and lookup', 'onion_request_guess_session_id, onion_request_get_session_dict')])
prop('S05', 'Session stores save, find and remove by identifier',
     'In every session backend, saving data stores it under the identifier given, saving no data (removal) deletes that identifier\'s entry unless it is already absent or the store itself reports an error, and a lookup returns only what the store holds under the requested identifier, or nothing. Removing a session always reaches the backend as a removal of that same identifier.',
     ['inputs', 'histories', 'fault_sequences'], 'all paths of the save/get operations of the memory, sqlite and redis backends',
     'The redis and sqlite backends need servers or failures the tests do not have; removal is not tested per backend.',
     ['src/onion/sessions.c', 'src/onion/sessions_mem.c', 'src/onion/sessions_sqlite3.c', 'src/onion/sessions_redis.c'], [('backend operations', 'save and get of each backend')])
prop('S06', 'Session identifiers are 32 unpredictable characters',
     'Every session identifier the server issues has at least 32 characters, each derived from its own byte of cryptographic random data and drawn from an alphabet of at least 62 symbols; none is cut short, overwritten or constant. Random data always comes from the cryptographic generator and fills the whole requested buffer, and no predictable generator is used anywhere in the library.',
     ['inputs', 'histories'], 'every value of the random bytes and every generation',
     'Tests see a few identifiers; short or predictable ones appear for particular random bytes only.',
     ['src/onion/sessions.c', 'src/onion/random-gnutls.c'], [('identifier generation', 'onion_sessions_generate_id'), ('random source', 'onion_random_generate')])
prop('H09', 'Absent optional values are never dereferenced',
     'A missing header, cookie, query, form field, uploaded file, request body, session or configuration value, or a failed lookup, allocation from the C library, parse or open, is never dereferenced or handed to something that dereferences it: the value is checked on every path first. A request lacking any optional part therefore cannot crash the server.',
     ['inputs', 'fault_sequences'], 'all paths from every optional source to every dereference, across function boundaries',
     'Each optional part would need its own malformed request; tests send a few well-formed ones.',
     ['src/onion/request.c', 'src/onion/request_parser.c', 'src/onion/websocket.c', 'src/onion/handlers/webdav.c', 'src/onion/handlers/auth_pam.c', 'src/onion/shortcuts.c', 'src/onion/codecs.c'],
     [('optional accessors', 'onion_dict_get, onion_request_get_*, strstr/strchr, fopen/opendir, library constructors')])
prop('H01', 'Responses are framed once, in order and completely',
     'The headers of a response are sent exactly once: one status line carrying the response code in the version of the request, then the headers, then one blank line, all before any body byte. Chunked encoding is announced only to HTTP/1.1 clients when no length was set, and is used exactly when announced: each chunk is size, data, end of line, and the end-of-data mark is sent once after everything pending. The body of an answer to HEAD never reaches the client, any other is not suppressed; a short write is continued with the rest, and pending data is sent (never dropped while reporting success) when flushing and when the response ends.',
     ['inputs', 'configurations', 'fault_sequences'], 'all paths of header writing, flushing and ending a response',
     'Tests check a few responses as a whole; combinations of HEAD, version, length, chunking and short writes are not sampled.',
     ['src/onion/response.c'], [('header writer', 'onion_response_write_headers'), ('flush', 'onion_response_flush'), ('end of response', 'onion_response_free')])
prop('H02', 'Every handler outcome gets its own answer',
     'Every processed request goes through the root handler, and a handler that ends with not-processed, internal error, not implemented or forbidden is always followed by the error handler with the request marked with that very error; the default error page answers 404, 500, 501 or 403 accordingly, with its status set before anything is written and the announced length equal to what is written. The response is ended exactly once, except when the connection was taken over (yield). Every status the library names has its own reason phrase.',
     ['inputs', 'histories'], 'every handler result and every request',
     'Tests cover a couple of outcomes; the mapping must hold for each of them on every path.',
     ['src/onion/request.c', 'src/onion/onion.c', 'src/onion/response.c'], [('outcome mapping', 'onion_request_process'), ('default error page', 'registered by onion_new'), ('reason phrases', 'onion_response_code_description')])
prop('H03', 'Connections are kept alive only when both sides agree',
     'A connection is reused only if the application did not forbid it for the request, the client asked for it (HTTP/1.0: an explicit keep-alive; HTTP/1.1: no close), and the client can tell where the response ended: it was chunked, a HEAD answer, or exactly the announced length was sent.',
     ['inputs', 'histories'], 'every combination of version, Connection header, flags and response length',
     'Tests cover a few combinations.',
     ['src/onion/request.c', 'src/onion/response.c'], [('decision', 'onion_request_keep_alive'), ('end of response', 'onion_response_free')])
prop('R04', 'A reused connection starts from a clean request',
     'When a request object is reset for the next request on a kept-alive connection, nothing of the previous request is left: path, headers, query, form data, uploads, cookies, session, raw body, parser state, user data and websocket are empty or released, no flag except the ban on keep-alive survives, and the headers are a fresh case-insensitive dictionary. What the previous request owned is released exactly then: temporary files of its uploads are deleted and its session is saved (or removed from the store only if empty) before it is let go. Freeing a request releases all of it likewise and closes its connection, and a connection is reported as kept alive only after its response ended and the request was reset.',
     ['histories', 'inputs'], 'every sequence of requests on a connection, every combination of parts a request may have',
     'Leaking state between two requests needs a specific pair of requests; tests send few such pairs.',
     ['src/onion/request.c'], [('reset', 'onion_request_clean'), ('release', 'onion_request_free'), ('keep alive', 'onion_request_process')])
prop('P02', 'Request parsing always makes progress',
     'No input makes the request parser spin: each parser step either consumes input, reports that it needs more or that the request ended or failed, or moves on through a chain of states that cannot come back to itself without consuming. The driver only runs the currently selected step, only while there is input left, and reports every other outcome to its caller, so a read buffer is always finished in a bounded number of steps.',
     ['inputs'], 'every byte stream, in every split into reads, and all paths of all parser states',
     'A hang needs a particular byte in a particular state; tests cover well-formed requests and a few malformed ones.',
     ['src/onion/request_parser.c'], [('driver', 'onion_request_write'), ('states', 'the functions installed as request->parser')],
     technique='path-sensitive effect analysis of each parser state plus acyclicity of the state graph, over LLVM IR')
prop('B01', 'The request parser stays within its buffers',
     'Whatever bytes arrive, in whatever split, the request parser never writes past its token buffer, the body buffer (Content-Length bytes plus terminator), the multipart buffer or the name of an upload\'s temporary file, and never reads past the received bytes. A token is always terminated at or below its current length before it is used as a string.',
     ['inputs'], 'every byte stream, split, header value and Content-Length; all paths of all parser states',
     'Overflows need inputs of exactly the wrong length; tests send a few sizes.',
     ['src/onion/request_parser.c'], [('token buffer', 'onion_token'), ('body buffers', 'the urlencoded, plain and multipart body states')],
     technique='path-sensitive interval and linear-inequality dataflow over LLVM IR for each parser state')
prop('S08', 'Request bodies never exceed the configured limits',
     'A request body is accepted only if the announced size, compared in full width and never truncated or taken as negative, is at most the maximum post size (maximum file size for PUT), and never more than the announced number of bytes is taken as body. An uploaded file of a multipart body never stores more bytes than the maximum file size: each byte is counted and checked before it is stored. The functions that configure the limits set exactly the limit they name.',
     ['inputs', 'configurations'], 'every announced and actual length, every limit',
     'Tests try one size below and one above a limit; truncation and off-by-one need particular values.',
     ['src/onion/request_parser.c', 'src/onion/onion.c'], [('limits', 'max_post_size and max_file_size checks of the body states'), ('setters', 'onion_set_max_post_size, onion_set_max_file_size')],
     technique='path-sensitive interval and linear-inequality dataflow over LLVM IR for each body state')
prop('H08', 'A request is handled only with its whole body',
     'A request that announces a body is never handed to the application before that body was read: with a Content-Length the request is complete exactly when that many bytes arrived, not earlier, and as soon as they have, not later. This holds for any split of the body over several reads.',
     ['inputs', 'schedules'], 'every Content-Length and every split of the body into reads',
     'Tests send bodies whole or in one split; a wrong comparison shows only for particular splits.',
     ['src/onion/request_parser.c'], [('body states', 'the urlencoded, plain, PUT and multipart states'), ('end of headers', 'the header state choosing the body state')],
     technique='path-sensitive interval and linear-inequality dataflow over LLVM IR for each body state')
prop('R01', 'Descriptors and handles are closed exactly once on every path',
     'Whatever fails on the way, every file or socket descriptor, directory, file stream, address list, database or redis handle and statement, XML document or writer, compiled regular expression and TLS session the library acquires is, on each path, released exactly once, returned to the caller, or stored in an object that releases it when it is destroyed. None is used after it was closed.',
     ['fault_sequences', 'inputs', 'histories'], 'all control-flow paths of all library functions, including every error exit, and every destructor',
     'A leaked descriptor shows up only after thousands of failing requests; tests take each error path at most once and do not count descriptors.',
     ['src/onion/handlers/exportlocal.c', 'src/onion/handlers/webdav.c', 'src/onion/listen_point.c', 'src/onion/poller.c', 'src/onion/shortcuts.c', 'src/onion/sessions_sqlite3.c', 'src/onion/sessions_redis.c', 'src/onion/https.c', 'src/onion/url.c', 'src/onion/request_parser.c'],
     [('ownership', 'every acquire/release call pair'), ('destructors', 'poller, listen point, session store, url and path handlers')],
     technique='interprocedural ownership (typestate) dataflow over LLVM IR with inferred release/keep/return summaries')
prop('R02', 'Memory is released on every path and by every destructor',
     'Every block and library object (dictionary, block, response, request, handler, listen point, session store) that a library function allocates is, on each path, freed, returned, or handed to an owner; when the host name or port of a listen point or the path of a request is replaced, the old one is freed. Destructors and the release hooks of handlers, listen points and session stores free the object itself and everything its fields own.',
     ['fault_sequences', 'inputs', 'histories'], 'all control-flow paths of all library functions, including every error exit, and every destructor',
     'A long-running server leaks through error paths and destructors no test measures.',
     ['src/onion/request.c', 'src/onion/request_parser.c', 'src/onion/handlers/webdav.c', 'src/onion/onion.c', 'src/onion/shortcuts.c', 'src/onion/sessions.c', 'src/onion/codecs.c', 'src/onion/dict.c', 'src/onion/websocket.c', 'src/onion/url.c'],
     [('ownership', 'every allocation and release'), ('destructors', 'the *_free functions and registered release hooks')],
     technique='interprocedural ownership (typestate) dataflow over LLVM IR with inferred release/keep/return summaries')
prop('R03', 'Released memory is never used or released again',
     'No path of a library function reads, writes, passes on, returns or releases again a block or library object it (or a function it called) has already released.',
     ['fault_sequences', 'inputs', 'histories'], 'all control-flow paths of all library functions, with callees summarised',
     'Use after free needs a particular error path or order of events, and often goes unnoticed when it happens.',
     ['src/onion/request.c', 'src/onion/request_parser.c', 'src/onion/handlers/webdav.c', 'src/onion/onion.c', 'src/onion/poller.c', 'src/onion/sessions.c', 'src/onion/codecs.c', 'src/onion/dict.c', 'src/onion/websocket.c'],
     [('ownership', 'every release and every later use on the same path')],
     technique='interprocedural ownership (typestate) dataflow over LLVM IR with inferred release/keep/return summaries')
prop('C02', 'Shared state is only touched under its lock',
     'Whatever threads do, the state the library shares between them is only read or changed with the lock that belongs to it held: the poller\'s slot list, counters and stop flag, a dictionary\'s reference count, the server\'s client data, the cached Date header, the random generator\'s user count, the thread counters, the mime table, the sqlite and redis connections, and the in-memory session table. A value found in the in-memory session table gets its own reference before the lock is released.',
     ['schedules'], 'all interleavings of all threads: every access site of the listed state on every path',
     'A race shows only under a particular interleaving; tests rarely run two threads on the same state.',
     ['src/onion/poller.c', 'src/onion/dict.c', 'src/onion/onion.c', 'src/onion/response.c', 'src/onion/random-default.c', 'src/onion/mime.c', 'src/onion/sessions_sqlite3.c', 'src/onion/sessions_redis.c', 'src/onion/sessions_mem.c'],
     [('lockset', 'every load, store and call on the listed objects')],
     technique='interprocedural must-hold lockset dataflow over LLVM IR')
prop('C03', 'Locks cannot deadlock',
     'The order in which threads take the library\'s locks has no cycle, and no path takes a non-recursive lock it already holds. No request handler, event callback or shutdown hook is called, and nothing that waits for another thread, for the network or for time (join, epoll_wait, accept, sleep) is done, while holding a library lock (destruction of the poller excepted).',
     ['schedules'], 'all interleavings: every lock acquisition and every call made with a lock held, on all paths of the call graph',
     'A deadlock needs two threads to meet at the wrong moment; no test forces that.',
     ['src/onion/poller.c', 'src/onion/onion.c', 'src/onion/dict.c', 'src/onion/response.c', 'src/onion/sessions_mem.c', 'src/onion/sessions_sqlite3.c', 'src/onion/sessions_redis.c'],
     [('lock order graph', 'every pthread mutex and rwlock operation'), ('calls under a lock', 'every direct and indirect call')],
     technique='interprocedural may-hold lockset and lock-order graph analysis over LLVM IR')
prop('C04', 'Library functions are safe to call from concurrent requests',
     'No library function keeps data of a request in a variable that all threads share, and none uses libc functions with hidden shared state (localtime, gmtime, strtok, getpwnam and the like). Process-wide variables are changed only with a lock held or atomically, apart from those that set-up functions install before serving.',
     ['schedules'], 'all interleavings: every static variable and every libc call of every library function',
     'Two requests must overlap within microseconds for shared hidden state to mix them up.',
     ['src/onion/'], [('static variables', 'every store to a global or function-static variable'), ('libc calls', 'every call of a non-reentrant function')],
     technique='whole-program effect analysis of stores to globals and of calls, over LLVM IR')
prop('C05', 'The poller serves each descriptor one event at a time until it ends',
     'However many threads poll, the callback of a descriptor runs once per event, with the data and function its slot was created with, never for a descriptor that hung up and never twice at the same time: the descriptor is armed for one event, and armed again (with the type its slot then has) only after its callback returned zero or more. A negative result or a hang-up takes exactly that slot out of the list and the epoll set and runs its shutdown function once, as does destroying the poller; adding, finding and removing slots never loses or mixes up others. While a callback runs its timeout is suspended and starts again after it, slots whose limit has passed are ended and no others, the timer is always set for the nearest limit, and stopping the poller wakes its threads and ends their loops.',
     ['schedules', 'histories', 'inputs'], 'every sequence of events, callback results, additions and removals, by induction over the list of slots; all paths of the poller functions',
     'Tests poll a few descriptors in one or two threads; double service, a lost slot or a lost timeout needs a particular order of events.',
     ['src/onion/poller.c'], [('event loop', 'onion_poller_poll'), ('slots', 'onion_poller_slot_*'), ('list', 'onion_poller_add, onion_poller_remove, onion_poller_get, onion_poller_free'), ('timer', 'onion_poller_timer'), ('stop', 'onion_poller_stop')],
     technique='shape and event-order analysis: all paths of the poller functions over an abstract heap, one arbitrary loop iteration, over LLVM IR')
prop('H04', 'Requests are routed to the first handler that matches',
     'Handlers of a chain are tried in the order they were added, each only after the previous ones declined, and the first that answers decides: its result is returned and no later handler sees the request. A url entry is tried in the order added and only if its pattern matches: a pattern starting with ^ as a regular expression, any other only as exactly the whole remaining path; the handler is then given the path advanced past exactly what matched. A path handler likewise passes on only requests whose path starts with its prefix.',
     ['inputs', 'configurations'], 'every chain of handlers, set of patterns and request path',
     'Tests have a handful of routes; ordering and partial matches depend on particular combinations.',
     ['src/onion/handler.c', 'src/onion/url.c', 'src/onion/handlers/path.c'], [('chain', 'onion_handler_handle'), ('patterns', 'the handler registered by onion_url_new'), ('prefix', 'the handler registered by onion_handler_path')],
     technique='path-sensitive typestate analysis of the dispatch functions over LLVM IR')
prop('H05', 'Websockets open only after a valid handshake',
     'A request becomes a websocket only if it has an Upgrade header equal to websocket (in any case), a key, and version 13; any other request gets no websocket and its response is left untouched. The answer has status 101, announces the upgrade, carries as accept key the base64 of the SHA-1 of the client\'s key followed by the protocol constant, and has left for the client before the websocket can be used. A new websocket starts with no frame in progress, and is attached to its request.',
     ['inputs'], 'every combination of request headers',
     'Tests open valid websockets and a few invalid ones.',
     ['src/onion/websocket.c'], [('handshake', 'onion_websocket_new')],
     technique='path-sensitive gate and dataflow analysis over LLVM IR')
prop('H06', 'Websocket frames are read and written as the protocol says',
     'An incoming frame is used only after all bytes of its header arrived: the final and mask bits, the 7, 16 or 64 bit big-endian length, and the 4 byte mask when announced; a read never goes past the end of the frame or the caller\'s buffer, and what is left of the frame is reduced by exactly what was read. Payload of a masked frame is unmasked with the mask byte of its position in the frame, also when a frame is read in several parts, and that of an unmasked frame is left alone. Outgoing frames are final, unmasked, carry the selected opcode, and announce exactly the length of the payload in the shortest of the three forms.',
     ['inputs', 'schedules'], 'every frame header, payload length and split of the stream into reads',
     'Tests exchange a few short frames read in one piece.',
     ['src/onion/websocket.c'], [('header', 'onion_websocket_read_packet_header'), ('payload', 'onion_websocket_read'), ('sending', 'onion_websocket_write')],
     technique='path-sensitive dataflow with term evaluation of header fields, over LLVM IR')
prop('B02', 'Buffers are never overrun',
     'Whatever a client sends and whatever file names, header values or times occur, no library function writes or reads outside a local array, a block it has just allocated, the buffer of a response or the data of an onion_block: every index, copy, formatted print and read is within the size of the buffer (the states of the request parser are B01). The string functions that take the size of the result stay within it.',
     ['inputs'], 'every value the inputs can have on every control-flow path of all library functions',
     'An overrun needs an input of a particular length; tests use short ones, and an overrun by a few bytes often goes unnoticed.',
     ['src/onion/'], [('arrays', 'every access to a local array'), ('allocations', 'every access to a block allocated in the same function'), ('response', 'onion_response_write and the header writers'), ('block', 'onion_block_add_*')],
     technique='path-sensitive interval and linear-inequality dataflow over LLVM IR')
prop('S09', 'Text is quoted completely in HTML, JSON, URLs and C strings',
     'For every character, HTML quoting turns & < > " and the apostrophe into entities, JSON quoting escapes quotes, backslashes and control characters, URL quoting leaves only unreserved characters as they are and writes others as %XX, C quoting escapes quotes, backslashes, line ends, tabs and non ASCII bytes, base64 follows RFC 4648, and the decoders of URLs and JSON strings map escapes back; everything else passes unchanged, and the space reserved for the result always suffices. The library\'s own pages (directory listings, status page, error pages) write file names, paths, header names and values only HTML quoted.',
     ['inputs'], 'each of the 255 character values on each path of each quoting function; all values of a base64 group; every page write of the built-in handlers',
     'A test quotes a few sample strings; a missing character in one context is a cross-site scripting or injection hole.',
     ['src/onion/codecs.c', 'src/onion/response.c', 'src/onion/handlers/exportlocal.c', 'src/onion/handlers/internal_status.c'],
     [('encoders', 'onion_html_quote, onion_json_quote_add, onion_quote, onion_c_quote, onion_base64_encode'), ('decoders', 'onion_unquote_inplace, onion_json_unquote_add, onion_base64_decode'), ('pages', 'page writes of the built-in handlers')],
     technique='path-sensitive dataflow over LLVM IR computing, per path, the class of input characters and the output terms; provenance analysis of page writes')
prop('H10', 'Files are answered exactly as announced',
     'onion_shortcut_response_file answers a regular file with status 200, its size as length and its content from the first byte; with a satisfiable range it answers 206, a Content-Range whose first byte, last byte and total are those of the range (first <= last < size) and exactly that part of the file; with an unsatisfiable one 416 with the size and no body. A client that already has the current entity tag (made from size and modification time) gets 304 without body, a HEAD request no body. Never is more sent than the announced length, content sent by the kernel is counted and an incomplete one reported as an error; a directory or missing file is declined with the response untouched.',
     ['inputs'], 'every Range, If-None-Match and method, every file size, every result of read, write and sendfile',
     'Ranges at the edges of a file, files over some size and partial kernel sends are rarely sampled by tests, and a wrong length corrupts the following answer of a kept-alive connection.',
     ['src/onion/shortcuts.c'], [('answering a file', 'onion_shortcut_response_file'), ('entity tag', 'onion_shortcut_etag')],
     technique='path-sensitive dataflow with linear relations between size, range, announced length and bytes taken, over LLVM IR')
prop('R05', 'Descriptors are not inherited by programs the application starts',
     'Every descriptor the library makes (listening sockets, connections, files being served, copied or uploaded, the descriptors of the poller) is marked to be closed when a program is executed, at its creation or before anything else is done with it, on every path and whatever the platform supports. A program started by a request handler therefore never holds the connections or uploads of other clients.',
     ['inputs', 'fault_sequences', 'configurations'], 'every call that makes a descriptor, on all paths, fallbacks for missing system calls included',
     'No test starts a program from a handler, and the fallbacks are never taken on a current kernel.',
     ['src/onion/listen_point.c', 'src/onion/poller.c', 'src/onion/shortcuts.c', 'src/onion/request_parser.c'], [('close on exec', 'socket, accept4/accept, open, mkostemp, epoll_create1, eventfd, timerfd_create')],
     technique='path-sensitive typestate of descriptors (made, marked) over LLVM IR')
prop('R06', "The application's allocator and thread library are used for everything",
     "When an application replaces the allocator or the thread functions (onion_low_initialize_memory_allocation, onion_low_initialize_threads; a garbage collector, for example), the library makes and releases all its own memory and all its threads with them, calling the replacement of the function meant, with the arguments it was given. A block is always released by the family that made it: what the C library or PAM makes or releases itself never meets the application's allocator, and the other way round. Blocks made as holding no pointers never hold any, and the allocators that never fail never return NULL: the application's failure function is told.",
     ['inputs', 'configurations', 'fault_sequences'], 'every allocation, release and thread of the library, whatever was replaced, including when memory runs out',
     'With the default allocator both families are the same functions, so no test can tell them apart.',
     ['src/onion/low.c', 'src/onion/handlers/exportlocal.c', 'src/onion/handlers/webdav.c', 'src/onion/handlers/auth_pam.c', 'src/onion/request_parser.c', 'src/onion/extras/jpeg.c'], [('replaceable functions', 'onion_low_malloc, onion_low_free, onion_low_pthread_create and the others in low.c'), ('memory of the C library', 'realpath, PAM conversation')],
     technique='whole-program value-flow analysis of allocation families over LLVM IR, and path-sensitive analysis of the replaceable functions')
prop('P03', 'Dictionaries hold exactly what was put in them',
     'A dictionary finds an entry whenever one with an equal key (by the dictionary\'s own comparison, exact or case insensitive) was added and not removed, and never another one: insertion, removal and lookup agree on which side of a node a key belongs, rebalancing never loses, duplicates or misplaces entries, an entry with an equal key is replaced exactly when that was asked for, removal takes out one entry with that key and leaves all others, and visits see every entry once, in order. Keys and values are copied, kept and released exactly as the flags of the entry say, nested dictionaries as dictionaries and text as text; a lookup of text never gives a dictionary or the reverse. A copy or merge shares nothing with its original and keeps its comparison, and a shared dictionary is released with its last reference and not before.',
     ['inputs', 'histories'], 'every sequence of additions and removals with every key, flag combination and tree shape, by induction over the tree functions',
     'Tests use a few sequences of keys; a rotation or deletion case that loses an entry needs a particular tree shape.',
     ['src/onion/dict.c'], [('insertion', 'onion_dict_add'), ('removal', 'onion_dict_remove'), ('lookup', 'onion_dict_get, onion_dict_get_dict'), ('visits', 'onion_dict_preorder, onion_dict_count, onion_dict_free'), ('copies', 'onion_dict_dup, onion_dict_hard_dup, onion_dict_merge')],
     technique='shape analysis: all paths of the tree functions over an abstract heap, comparing in-order sequences, over LLVM IR')
prop('P05', 'What the client sent is found where it belongs',
     'An application sees the method, version, path, query, form fields, headers and cookies of a request exactly as the client sent them: every character is kept and none added, the path ends at the first question mark, query and form are split at & and at the first = of each field, and path, names and values are percent-decoded exactly once, after the split. Headers are found by name with their value undecoded and without the blanks around it (continuation lines included), cookies are split at ; and the first =, fields of a multipart form and uploaded files are found under their own name. Each lands in its own collection and no other, and the functions that give a header, query, form field, cookie or file read that collection.',
     ['inputs', 'histories'], 'every request head and body, cut into reads anywhere; every name, value and separator',
     'Tests use a few requests with well-formed pairs; a field split or decoded at the wrong moment shows only for values that contain encoded separators, repeated or empty parts.',
     ['src/onion/request_parser.c', 'src/onion/request.c'], [('first line', 'parse_headers_GET, parse_headers_URL, parse_headers_VERSION'), ('query and form', 'onion_request_parse_query, onion_request_parse_query_to_dict, parse_POST_urlencode'), ('headers', 'token_read_*, parse_headers_KEY, parse_headers_VALUE*'), ('cookies', 'onion_request_get_cookies_dict'), ('accessors', 'onion_request_get_header, onion_request_get_query, onion_request_get_post, onion_request_get_file')],
     technique='shape analysis (abstract interpretation over an abstract heap) of the parsing loops over LLVM IR, each read as a character automaton whose transitions are compared with the specified ones')
na('N01', 'Sessions and connections expire in time',
   'A connection that stays silent for longer than the configured time is closed, and a live connection is not closed earlier. The wait between the two is bounded by the configured time.',
   ['schedules', 'histories'], 'all timings of events and clock readings', 'Needs real or simulated time; tests wait for one timeout at most.',
   ['src/onion/poller.c'], [('timeouts', 'onion_poller_timer, onion_poller_timer_check')],
   'How long a wait lasts is a quantity of the run (clock, scheduler, kernel), which no static argument here bounds. The part that is decidable, that the next deadline is computed from all slots and a slot is timed out exactly when its deadline has passed, is part of C05.')
na('N02', 'Every connection gets its turn',
   'With many connections active, each of them is served eventually, and no connection or handler starves the others. The server goes on serving as long as one of its threads is free.',
   ['schedules'], 'all schedules of the pool and all orders of events', 'Needs unbounded schedules under load.',
   ['src/onion/poller.c', 'src/onion/onion.c'], [('event loop', 'onion_poller_poll'), ('pool', 'onion_listen')],
   'Fairness and liveness depend on the kernel\'s event order and the handlers\' run time; a static analysis of this code sees neither. Lock discipline, without which there would be deadlock, is decided in C02 and C03.')
na('N03', 'Concurrent operations on a session store are linearizable',
   'Two requests of the same session that run at the same time leave the store in a state that some order of the two explains. A session saved by one request is never half visible to another.',
   ['schedules', 'fault_sequences'], 'all interleavings of requests and of the processes that share the store', 'Tests run one request at a time.',
   ['src/onion/sessions_mem.c', 'src/onion/sessions_sqlite3.c', 'src/onion/sessions_redis.c'], [('stores', 'get, save')],
   'The decision needs the histories of an external store (SQLite, Redis) and of whole handlers between load and save. The static part, that each access holds the store\'s lock and that reference counts are atomic, is decided in C01, C03 and C04.')
na('N04', 'Encoding and decoding are inverse for every text',
   'Whatever text is encoded for a query, a base64 field, a JSON string or a session is obtained again by decoding it.',
   ['inputs'], 'all texts of all lengths', 'Tests sample a few texts.',
   ['src/onion/codecs.c', 'src/onion/dict.c'], [('codecs', 'onion_base64_encode, onion_base64_decode, onion_quote, onion_unquote, onion_dict_from_json')],
   'The composition of two loops over data of unbounded length needs an inductive proof over contents or running them; neither is static analysis as meant here. Per character, what each encoder writes and each decoder reads is decided in S08.')
