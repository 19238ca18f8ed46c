SOUND = ('Whole-program static analysis of the LLVM IR of the current sources; every path of the functions analysed is covered, joined at merge points. '
         'Trusts clang\'s front end, the resolution of function pointers by the fields they are stored in, and the documented behaviour of external libraries. ')

prop('P01', 'A failed memory allocation is always noticed',
     'When a memory allocation fails, the function that asked for it notices: the missing memory is never read, written or handed to code that would do so. '
     'A function which reports success has never left such a missing allocation behind in a structure or output it was asked to fill.',
     ['fault_sequences', 'inputs'], 'every allocation call site in the libraries, modules and programs, failing at any time',
     'The tests run with memory available; no allocation in them ever fails, and there are more than 450 call sites.',
     ['src/lib/allocator.c', 'src/lib/array.c', 'src/lib/mqtt/mqtt_packet.c', 'src/lib/mqtt/mqtt_parse.c', 'src/lib/http/http_part.c', 'src/modules/p_mysql.c', 'src/lib/instances.c'],
     [('rrr_allocate and friends return NULL upon failure', 'src/lib/allocator.c'), ('each caller compares the result with NULL', 'all call sites')],
     'dataflow: path-sensitive nullness of allocation results over LLVM IR',
     SOUND + 'A pointer is followed inside the allocating function and into callees that dereference a parameter; a result returned through an output parameter is not followed into the caller.')

prop('P02', 'Locks are released exactly once on every path and cannot self-deadlock',
     'Every mutex or read/write lock that a function takes is released exactly once on every way out of it, including error paths and thread cancellation points, unless handing it on is the function\'s documented purpose, '
     'and no lock is released or waited upon by code that does not hold it. '
     'No thread takes a non-recursive lock it already holds, and any two locks are always taken in the same order.',
     ['schedules', 'fault_sequences'], 'every path through every function that operates on a mutex or read/write lock, including failures and cleanup handlers',
     'A leaked or doubly released lock shows only on error paths and under contention; tests take the success path with little contention.',
     ['src/lib/fifo_protected.c', 'src/lib/log.c', 'src/lib/fork.c', 'src/lib/rrr_mmap.c', 'src/lib/mmap_channel.c', 'src/lib/stats/stats_engine.c', 'src/lib/socket/rrr_socket.c', 'src/lib/message_broker.c', 'src/modules/src_journal.c'],
     [('pthread mutexes and rwlocks', 'src/lib/util/posix.c'), ('pthread_cleanup_push handlers', 'src/lib/fifo_protected.c'), ('robust mutexes recovered after a dead owner', 'src/lib/util/posix.c')],
     'typestate (held locks) with inferred lock helpers, plus lock-order graph',
     SOUND + 'Locks are told apart by the object and field they live in; lock order is decided along direct calls only, calls through function pointers are not followed for that part.')

prop('P03', 'Message entries are unlocked exactly once by whoever receives them locked',
     'Message entries are handed to poll, broker and queue callbacks while locked: whoever receives a locked entry unlocks it exactly once on every path, also when processing fails, and never touches the lock again afterwards. '
     'Whoever locks an entry itself either unlocks it exactly once or hands it on locked to code that expects this.',
     ['schedules', 'fault_sequences', 'inputs'], 'every path through every module poll callback, broker callback and entry-handling function',
     'An entry left locked stalls the pipeline, and one unlocked twice corrupts it, only when the specific error branch is taken; tests exercise the success branch of a few modules.',
     ['src/lib/message_holder/message_holder.c', 'src/lib/message_broker.c', 'src/lib/message_holder/message_holder_slot.c', 'src/lib/poll_helper.c', 'src/modules'],
     [('entry lock and reference count', 'src/lib/message_holder/message_holder.c'), ('poll callbacks of the modules', 'src/modules')],
     'typestate of entry locks with inferred callback contracts',
     SOUND + 'The contract "entered with a locked entry" is inferred from the unlocks and must be shared by all functions used for the same callback.')

prop('P04', 'Shared state is only accessed while holding the lock which protects it',
     'State shared between threads and forks is only read or written while the lock protecting it is held: the socket list, shared-memory holder list and memory-map blocks, the protected FIFO\'s queues, message slots, broker registry, '
     'fork list, error-string cache, log hooks, journal queue, statistics lists, exit-cleanup and signal handler lists and the user counts of the embedded script, TLS and database libraries.',
     ['schedules'], 'every access to the listed state in every function and every chain of callers',
     'A missing lock is visible only in an unlucky interleaving; tests run few threads and do not control their schedule.',
     ['src/lib/socket/rrr_socket.c', 'src/lib/rrr_shm.c', 'src/lib/rrr_mmap.c', 'src/lib/fifo_protected.c', 'src/lib/message_holder/message_holder_slot.c', 'src/lib/message_broker.c', 'src/lib/fork.c', 'src/lib/rrr_strerror.c', 'src/lib/stats/stats_engine.c', 'src/modules/src_journal.c'],
     [('one lock per shared structure', 'same files')],
     'lockset analysis (entry locksets over the call graph) against a guarded-state table',
     SOUND + 'The table of guarded state lists 103 items which the current code always accesses under one lock; newly allocated objects not yet published are exempt.')

prop('P05', 'A failure that is detected is reported to the caller',
     'A function that reports a failure in the log as an error does not tell its caller that it succeeded, and the failure of an internal operation which reports its own errors is not silently turned into success by the function that called it. '
     'Exceptions are messages, connections or optional facilities which are deliberately dropped or done without, when this is stated.',
     ['fault_sequences', 'inputs'], 'every failing path through every function of the libraries, modules and programs which returns a status',
     'Start-up, configuration, network and resource failures are hardly provoked by the tests, and there are more than 2000 places where one is reported.',
     ['src/lib', 'src/modules', 'src/main.c', 'src/rrr_passwd.c', 'src/rrr_post.c'],
     [('0 is success, everything else a failure', 'all functions returning int'), ('RRR_MSG_0 is the error level of the log', 'src/lib/log.h')],
     'path-sensitive dataflow: failure observed or logged -> value returned',
     SOUND + 'A function is judged by the failures it observes or logs itself. Messages which announce that the failure is handled, and a list of 27 messages and 19 callees with the reason for each, are exempt.')

prop('P06', 'What a function acquires is released or handed over on every path',
     'Memory, descriptors, library objects, references and objects made by constructors of the program which a function acquires are, on every path to its return including all error paths, released, returned, or stored where others find and release them. '
     'When a structure is destroyed, every member which owns what it points to is released as well.',
     ['fault_sequences', 'inputs'], 'every path from every acquisition in the libraries, modules and programs; every destructor',
     'Leaks show only as growth over time in long-running daemons, and most are on error paths which no test takes.',
     ['src/lib', 'src/modules', 'src/main.c'],
     [('allocation functions', 'src/lib/allocator.h'), ('constructors and destructors', 'all *_new, *_destroy, *_cleanup and *_clear functions'), ('reference counts', 'src/lib/message_holder/message_holder.c')],
     'ownership analysis with inferred summaries of constructors and consumers, field ownership of destructors',
     SOUND + 'What becomes of each parameter (kept, released, stored) and which functions hand out a new resource is inferred from their code. Resources taken out of lists are not followed. 25 members which need no release are listed with the reason.')

prop('P07', 'Formatted output has constant formats which match their arguments',
     'Every format string given to the log functions, to printf-like functions and their wrappers is a constant of the program and never data received or configured, and each of its conversions has an argument of the right number, kind (pointer, integer, floating point) and width.',
     ['inputs', 'configurations'], 'every call of a printf-like function in the program, also at debug levels and in code for errors which never occur in tests',
     'A wrong argument reads arbitrary memory or crashes while an error is being reported; most of the over 6000 calls are on paths which no test takes, and the log macros are not declared for compiler checks.',
     ['src/lib/log.h', 'src/lib/util/gnu.c', 'src/lib', 'src/modules'],
     [('log functions', 'src/lib/log.c'), ('format wrappers', 'src/lib/util/gnu.c')],
     'type checking of format strings over the intermediate representation, wrappers inferred',
     SOUND + 'Wrappers are found by following format parameters. Character signedness and precision are not judged.')

prop('P08', 'MQTT packets which break the rules of the protocol are not accepted',
     'A received MQTT packet is only accepted as parsed when the checks which the MQTT standards demand have succeeded: '
     'fixed header (type not reserved, reserved flags as prescribed, remaining length of at most four bytes), CONNECT (known protocol name and version, reserved flag zero, will flags consistent and will QoS at most 2, no password without user name before V5, valid will topic), '
     'CONNACK (reserved flags zero, reason known and applicable), PUBLISH (QoS at most 2, no DUP with QoS 0, valid topic name), packet identifiers not zero, '
     'SUBSCRIBE and UNSUBSCRIBE (at least one valid topic filter without NUL, QoS at most 2, retain handling at most 2, reserved bits zero, no options before V5), reasons of acknowledgements known and applicable, '
     'DISCONNECT (no content before V5), UTF-8 fields well formed and without NUL and surrogates, fields which do not reach beyond what has been received or the end of their packet, properties known, and no data left behind the last field. '
     'No packet other than CONNECT is accepted before the protocol version is known, AUTH is never accepted, and a packet is only marked complete after its parser succeeded.',
     ['inputs', 'fault_sequences'], 'every path through the packet parsers from their entry to the points where header or payload are marked as done, a subscription or property is taken over or a field is accepted',
     'The input is arbitrary bytes from any peer, divided arbitrarily over reads. The tests use a few valid packets of a well-behaved client.',
     ['src/lib/mqtt/mqtt_parse.c', 'src/lib/mqtt/mqtt_packet.h'],
     [('packet parsers', 'src/lib/mqtt/mqtt_parse.c'), ('MQTT 3.1.1 and 5.0', 'OASIS standards')],
     'must-pass-through analysis (path-sensitive dataflow): facts established on all paths to the acceptance of a packet',
     SOUND + 'For each point of acceptance it is decided which comparisons and calls must have had which results. Which reasons a SUBACK carries is not judged. When parsing is resumed with a later read, what was established for the header at the first attempt is relied upon.')

prop('P09', 'RRR messages from outside are verified before they are used',
     'A message received from a socket, over UDP, MQTT, HTTP or websocket, or read from the message database is only handed on after its head was verified (size as stated and at least the size of a head, known type, checksum of the head where it is taken from a stream), the checksum of its data was found correct and the checks of its type succeeded: '
     'data messages (class and type known, topic within the message and valid UTF-8, total size as received), address messages (address length within its field), log messages (prefix within the message, strings terminated), statistics messages (path and data within the message and the fields they are copied to, known type and flags, path terminated). '
     'Each kind of message goes to the callback for its kind only. A value in an array message is only used when the version and type are known and tag and data lie within the message. A message from the database is only used when its topic is the one asked for.',
     ['inputs', 'fault_sequences'], 'every path through the verification functions and their callers to the point where a message is accepted or handed to a callback',
     'All modules and forked processes rely on sizes inside of messages without checking them again. Corrupted messages do not occur in the tests.',
     ['src/lib/messages', 'src/lib/stats/stats_message.c', 'src/lib/array.c', 'src/lib/type.c', 'src/lib/msgdb/msgdb_server.c', 'src/modules/p_mqttclient.c', 'src/modules/p_httpserver.c'],
     [('message verification', 'src/lib/messages/msg.c'), ('data messages', 'src/lib/messages/msg_msg.c'), ('arrays', 'src/lib/array.c')],
     'must-pass-through analysis (path-sensitive dataflow): facts established on all paths to the acceptance of a message',
     SOUND + 'Bounds are decided as relations between the sizes which are compared; additions in them are taken as exact.')

prop('P10', 'Malformed HTTP and websocket data is not accepted',
     'An HTTP/1 request or response from a peer is only taken as complete when its first line was understood (method of 1 to 10 characters which is one of the known ones, version HTTP/1.0 or HTTP/1.1 at the end of the line, status not above 999), all fields of its header were parsed and no limit was exceeded (64 kB header, total size with Content-Length does not overflow). '
     'Chunk sizes are only taken from lines which consist of a hexadecimal number, the next chunk is only looked for after the present one has been received, and a multipart part is never chunked. A field which takes a number, text or encoded data is only accepted with exactly one value which is not empty and, for a number, consists of digits only. GET, OPTIONS, HEAD and DELETE requests with a body are refused. '
     'A websocket frame is only processed with the reserved bits clear, a known opcode, a length which is in range and, for control frames, at most 125 bytes and not fragmented; a continuation needs a frame to continue. '
     'A connection is only upgraded to websocket or HTTP/2 when the request is complete (method, version 13, key of 16 bytes, settings, connection and upgrade fields, application agrees), and a client only upgrades when it asked for it and the accept key of the server is the right one.',
     ['inputs'], 'every path through the HTTP/1 and websocket parsers and the upgrade handlers to the point where a first line, header, field, chunk, frame or upgrade is accepted',
     'Anybody who can reach the port decides what the parsers get. Few malformed requests occur in the tests.',
     ['src/lib/http/http_part_parse.c', 'src/lib/http/http_header_fields.c', 'src/lib/http/http_application_http1.c', 'src/lib/websocket/websocket.c'],
     [('first line, header and chunks', 'src/lib/http/http_part_parse.c'), ('fields', 'src/lib/http/http_header_fields.c'), ('upgrades', 'src/lib/http/http_application_http1.c'), ('frames', 'src/lib/websocket/websocket.c')],
     'must-pass-through analysis (path-sensitive dataflow): facts established on all paths to the acceptance of a request, response, field, chunk, frame or upgrade',
     SOUND + 'Syntax inside of field values is only covered for fields of the kinds mentioned.')

prop('P11', 'The MQTT broker serves authenticated clients and permitted topics only',
     'The broker gives a client a session and accepts its connection only after it has authenticated itself: with user name and password, found correct together with the permission which is demanded, in the password file, or without user name only where anonymous logins are allowed. '
     'A client identifier which begins like those the broker assigns is only accepted when its session exists already. '
     'A password is only correct when its complete hash of the right length is equal to the one on file. '
     'A PUBLISH, a will and a subscription only take effect when the access list allows the user to write or read the topic: the last matching entry decides, and what no entry allows is denied. Everything is only allowed when no access list is configured, and a list which cannot be read stops the broker. '
     'Subscriptions which are denied are not stored. Packets are only handled in the states of a connection in which they are allowed, and nothing but CONNECT before a connection is established.',
     ['inputs', 'histories', 'configurations'], 'every path through login, password verification, access lists and the packet handlers of the broker to the point where a session, publication, will or subscription is accepted',
     'A test shows that a valid login works and that one wrong one is refused. That no other way leads to a session or past the access list is a matter of all paths.',
     ['src/lib/mqtt/mqtt_broker.c', 'src/lib/mqtt/mqtt_acl.c', 'src/lib/mqtt/mqtt_common.c', 'src/lib/mqtt/mqtt_subscription.c', 'src/lib/passwd.c', 'src/modules/d_mqttbroker.c'],
     [('login', 'src/lib/mqtt/mqtt_broker.c'), ('access list', 'src/lib/mqtt/mqtt_acl.c'), ('passwords', 'src/lib/passwd.c')],
     'must-pass-through analysis (path-sensitive dataflow): facts established on all paths to a session, publication, will or subscription',
     SOUND + 'How wildcards in a subscription are matched with wildcards in the access list is not judged.')

prop('P12', 'TLS connections are only used when the peer has been verified',
     'With OpenSSL, a TLS context is only put to use with verification of the peer turned on, trusted certificates loaded, TLS 1.2 or later (1.1 where this is explicitly asked for, as by MQTT), and a private key which matches the certificate. '
     'Verification is only replaced when this was asked for by the option of the HTTP client; no other user of TLS asks for it. A handshake only succeeds when OpenSSL completed it, the server has shown a certificate and the result of the verification is positive, '
     'and nothing is read from or written to the application before. A TLS server does not start without certificate and key. Where TLS is configured in the modules for HTTP, MQTT and InfluxDB, no connection without TLS is made instead.',
     ['inputs', 'configurations', 'fault_sequences'], 'every path through the setup of contexts, the handshake and the choice of transport',
     'Connections work just as well when verification is missing, and the tests only use a certificate which is right.',
     ['src/lib/net_transport', 'src/lib/rrr_openssl.c', 'src/lib/http/http_client.c', 'src/lib/mqtt/mqtt_transport.c', 'src/modules/p_influxdb.c', 'src/modules/p_mqttclient.c', 'src/modules/p_httpserver.c'],
     [('contexts', 'src/lib/net_transport/net_transport_openssl_common.c'), ('handshake', 'src/lib/net_transport/net_transport_openssl.c'), ('choice of transport', 'src/lib/net_transport/net_transport_config.c')],
     'must-pass-through analysis (path-sensitive dataflow): facts established on all paths to the use of a connection',
     SOUND + 'LibreSSL and QUIC are not compiled here. Names of hosts are not verified by the program, this is not part of the statement. Redirects of HTTP servers from https to http are followed, as documented.')

prop('P13', 'What has been released is not used or released again',
     'Memory and objects which a function has released (with free, or through any function which for certain releases its argument) are not accessed by it any more, not handed to a function which accesses them, and not released a second time, '
     'whichever way the function is left. The same holds for what a called function has released while some structure of the caller still refers to it. What has been handed over to a structure, a list or the caller is not released while it is still referred to from there, '
     'and callbacks which nothing in the program calls do not return with a member of a structure referring to what they have released.',
     ['inputs', 'fault_sequences'], 'every path through every function which releases something or calls a function which does, with failure of any call',
     'A second release, or use after release, sits on error paths which tests do not take, and often goes unnoticed when it happens because the memory has not been given to somebody else yet.',
     ['src/lib', 'src/modules', 'src'],
     [('release of lists', 'src/lib/util/linked_list.h'), ('strings', 'src/lib/helpers/nullsafe_str.c'), ('slots', 'src/lib/message_holder/message_holder_slot.c')],
     'path-sensitive abstract interpretation with released terms as typestate; summaries of what callees release and leave references to; callees inlined where they touch such a reference',
     SOUND + 'Reference counted objects are only considered released by functions which release them for certain. References from other structures than those the function reads or writes itself are not known, neither are uses by other threads.')



prop('P14', 'Nothing is used before it has been set',
     'No function decides a branch by, uses as an address or index, stores, returns or passes on the value of a local variable or of a member of a local structure which no statement has set on the way there. '
     'A called function which returns without having set the variable it was given the address of (for instance because it failed) counts as not having set it, and one which reads what it finds there counts as a use. '
     'The members of a newly allocated object are not used before they have been set either, and an object is not returned or left in a structure with members (other than arrays and the links of list elements) which nothing has set.',
     ['inputs', 'fault_sequences'], 'every path through every function, with every return value of the functions it calls',
     'What happens to be on the stack or the heap is mostly zero in tests; the path on which a variable is not set is usually one on which something has failed.',
     ['src/lib', 'src/modules', 'src'],
     [('lists of values', 'src/lib/array.c'), ('discern stack', 'src/lib/discern_stack.c'), ('HTTP sessions', 'src/lib/http/http_session.c')],
     'path-sensitive abstract interpretation with unset values as terms of their own; on-demand summaries of what callees set and read per return value; confirmation of reports with the callee inlined',
     SOUND + 'Variables whose address is stored somewhere are taken to be set by whoever finds it there, and so are those given to functions outside the program. Arrays and unions are not followed, nor is floating point arithmetic.')

prop('P15', 'What the message database acknowledges has been done',
     'The message database acknowledges a request to store or delete a message only when the message has been written completely to its file, or the file has been deleted or was not there; a lookup is answered with the message or negatively, and each request gets an answer unless the connection is closed. '
     'Requests without a topic are refused, and the operation performed is the one which was asked for. Files are only opened, read or deleted after the directory they belong to has been entered. '
     'Tidying and listing only touch messages which have reached the given age (and unreadable files), and are not reported complete when reading a directory failed; moving a file requires its new directory to exist. '
     'The client reports success, failure and messages as the server stated them. Of its users, the incrementer hands on a message only when its new identifier has been stored, httpclient does not continue when storing failed, '
     'and cacher only hands on messages it received from the database or found in its memory within their lifetime and with the topic asked for, and only deletes or stores where this was requested.',
     ['inputs', 'fault_sequences', 'histories'], 'every path through the functions for requests, files, iteration and acknowledgement, with failure of any call',
     'Disks which are full, files which cannot be opened and requests which fail half-way are not part of the tests, and the loss is only seen when the message is asked for.',
     ['src/lib/msgdb', 'src/modules/p_cacher.c', 'src/modules/p_incrementer.c', 'src/modules/p_httpclient.c'],
     [('requests and files', 'src/lib/msgdb/msgdb_server.c'), ('acknowledgements', 'src/lib/msgdb/msgdb_client.c'), ('cache', 'src/modules/p_cacher.c'), ('identifiers', 'src/modules/p_incrementer.c')],
     'must-pass-through analysis (path-sensitive dataflow): facts established on all paths to the acknowledgement or operation',
     SOUND + 'What the operating system does with data which has been written (no synchronisation to disk is requested) and crashes between the truncation and the writing of a file are not part of the statement.')
