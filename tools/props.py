NOTE = ("Sound over the abstract semantics of the analysed code (all inputs, all interleavings at lock granularity where locks are involved), relative to the "
        "contracts of library functions written in wv/models.py and to rustc's MIR; ")

prop("P08", "Status codes, methods and versions are written and read back unchanged",
     """Every named status, method and version has exactly one textual or numeric form, the standard one, no two share a form, and reading that form back gives the
     same value. Any other status number is kept as it is, and any other method or version text is rejected.""",
     ["inputs"], "all values of the three vocabularies, all numbers and all texts",
     "the unit tests sample a few values; the tables have dozens of entries and the texts are unbounded",
     ["http/status.rs", "http/version.rs", "http/mod.rs"], [("conversion tables", "From<usize>, Display and FromStr implementations of the three enums")],
     "decision-table extraction by abstract interpretation of the conversion functions' MIR, compared with the RFC 7231 table",
     NOTE + "the standard numbers are listed in the rule")
prop("P12", "No failure of a single connection stops the server from accepting others",
     """Once started, the accept loop ends only because a shutdown was requested or because the event notification mechanism itself fails (being interrupted by a signal is no failure). An error accepting, setting up
     (including TLS), handing over or refusing one connection neither ends nor panics it, and it always goes back to listening for the next connection.""",
     ["fault_sequences", "histories"], "every sequence of failures of accept, connection set up, hand over and answer",
     "the tests never make accept, the TLS set up or the pool fail at the moment the loop uses them",
     ["lib.rs"], [("accept loop", "Server::start / accept_connections"), ("re-arming the listener", "Poller::modify in the loop")],
     "typestate + exit-cause analysis of the accept thread on an interprocedural abstract path graph",
     NOTE + "calls into the separately analysed types (pool, streams, responses) are treated as returning any value of their type; poisoned locks are out of scope")
prop("P13", "Every accepted connection is served once, or refused with 503 and closed",
     """Each accepted connection is handed to exactly one worker, or, when no worker can take it, it is answered with status 503 and then closed in both directions even if writing the answer failed.
     The accepting thread neither writes to nor closes a connection that a worker took, and forgets none.""",
     ["histories", "fault_sequences"], "every sequence of connections, pool answers and write failures",
     "the busy path needs every worker occupied at the right instant and a write failing, which the tests do not arrange",
     ["lib.rs", "thread_pool/mod.rs"], [("hand over", "accept loop: Pool::run"), ("refusal", "handle_busy")],
     "typestate of each accepted connection over the accept thread's abstract paths",
     NOTE + "the 503 must be built from the status constant; what the pool does with a job is P16")
prop("P14", "A requested shutdown is never lost and leaves nothing running",
     """When a started server is told to shut down, the request is recorded before the accepting thread is woken and shutdown returns success only after that thread ended well.
     The accepting thread looks at the request after every wake-up before it waits again, and when it finds it, it closes every tracked connection in both directions, then waits for the workers, and ends.""",
     ["schedules"], "every interleaving of the shutdown request with the accept loop",
     "tests shut down an idle server; the windows between waking, checking and waiting are a few instructions wide",
     ["lib.rs"], [("request", "Server::shutdown"), ("check", "accept_connections: load of the stop flag after Poller::wait"), ("draining", "accept_connections: ObservedStreamList::drain")],
     "ordering (happens-before) and typestate analysis of both threads, with identity of the shared flag, poller and handle",
     NOTE + "the poller's notification is assumed sticky (documented by the polling crate); termination of handlers is not claimed")
prop("P15", "A server starts at most once and a failed start leaves it as it was",
     """Starting a server that is already started is refused with an error and has no effect. A start succeeds only if the address was bound, the listener registered and one accepting
     thread started; otherwise it reports an error, leaves the server startable and never panics. Shutting down or waiting for a server that was not started is an error.""",
     ["fault_sequences", "histories"], "every failure point of a start, every order of calls",
     "the tests start servers once and never make binding succeed and registering fail",
     ["lib.rs"], [("guard", "Server::start: the stored poller"), ("not started", "Server::shutdown, Server::wait")],
     "path-sensitive effect analysis of the start and stop entry points with the server's state pinned",
     NOTE + "thread::spawn is assumed not to fail")
prop("P16", "A job given to the worker pool runs exactly once or is handed back",
     """When the pool accepts a job, the job was given to exactly one worker, and that worker runs it exactly once before it takes another or ends. When the pool refuses, no worker got the job and the caller gets it back intact. A job is only given to a worker that is free to run it at once: it never waits behind another job.""",
     ["schedules", "histories"], "every state of the workers (busy, idle, ending, gone) at every attempt",
     "a worker that ends between the check and the hand over is a race the tests cannot schedule",
     ["thread_pool/mod.rs", "thread_pool/static_pool.rs", "thread_pool/dynamic_pool.rs"],
     [("hand over", "Pool::run, Static::run, Dynamic::run"), ("worker loops", "static_pool, dynamic_pool: thread bodies")],
     "linear-ownership typestate of the job over the submit paths and the worker bodies",
     NOTE + "a successful channel send is assumed to reach the receiver (std)")
prop("P17", "A job that panics costs neither a worker nor the server",
     """A panic inside a job does not leave the worker that runs it: the worker goes on to take further jobs, and it ends only when its pool is gone or it has been idle. No lock is held while a job runs.""",
     ["inputs", "fault_sequences"], "every job that may panic, in every worker",
     "the tests run jobs that return; a dead worker shows only as capacity lost later",
     ["thread_pool/static_pool.rs", "thread_pool/dynamic_pool.rs"], [("containment", "catch_unwind around the job in both worker bodies")],
     "unwind-path analysis of the worker thread bodies",
     NOTE + "panic=unwind; aborts and double panics are out of scope")
prop("P18", "Dropping the worker pool waits for its workers and cannot deadlock",
     """Every thread the pool starts is owned by a worker whose destructor first closes its queue and then waits for the thread, on every path. So when the pool is gone, no worker of it is running.""",
     ["schedules"], "every state of the workers when the pool is dropped",
     "the tests drop pools whose workers are already idle; joining before closing hangs only sometimes",
     ["thread_pool/static_pool.rs", "thread_pool/dynamic_pool.rs"], [("destructors", "Drop of the two worker types")],
     "ordering analysis of the destructors and ownership of every thread handle",
     NOTE + "that a job ends is up to the job")
prop("P19", "The worker pool never runs more threads than its configured maximum",
     """The fixed part starts exactly as many threads as its size. The on demand part starts a thread only after taking a free slot, there are never more slots than the maximum minus the minimum, and a worker
     gives its slot back exactly once, after its last job.""",
     ["schedules", "histories"], "every interleaving of submissions with idle workers ending",
     "tests use one or two workers and never let a worker time out while another job is submitted",
     ["thread_pool/mod.rs", "thread_pool/dynamic_pool.rs", "thread_pool/static_pool.rs"], [("slots", "Dynamic: free_cells"), ("sizes", "Pool::new")],
     "token (linear resource) analysis of slots and loop-bound analysis of thread creation",
     NOTE + "")
prop("P09", "Each request gets exactly one answer, produced by the matching route",
     """Every request read from a connection is answered exactly once before the next one is read: with what the action of the longest matching route for its method returned, with 404 if no route matches, with 500 if the action fails,
     and with 400 if the request cannot be understood, after which no further request is read. After a failed read or write nothing more is written on the connection, and no byte of one request's body is ever read as the next request.""",
     ["inputs", "histories", "fault_sequences"], "every sequence of requests, actions that read any part of a body, and failures on one connection",
     "the tests send one well formed request per connection and let the action read all of it or nothing",
     ["lib.rs", "http/mod.rs"], [("conversation", "Server::handle_connection / run_action"), ("leftover of a body", "Body::ensure_read")],
     "typestate of the exchange over the abstract paths of the connection job",
     NOTE + "requests sent ahead of the answer (pipelining) may be lost in the read buffer: known finding")
prop("P10", "A connection is kept open exactly when the request asks for it",
     """After a request was answered the server waits for another one if and only if it is HTTP/1.1 or newer and does not say Connection: close, or is HTTP/1.0 and says Connection: keep-alive; the option is compared without regard to case.
     Exempt are failures to read or answer, and an action that keeps the body of the request for itself: then the connection is closed.""",
     ["inputs"], "all versions and all values of the Connection header",
     "the tests exercise two or three of the combinations",
     ["lib.rs", "http/mod.rs"], [("decision", "Server::handle_connection and the connection_persistence helpers")],
     "decision table: each abstract path of the connection job is compared with the assignments of (version, Connection) it is consistent with",
     NOTE + "only the first value of the Connection header counts")

prop("P06", "A message is written completely or its writer reports an error",
     """When writing a request, a response, headers or a body reports success, every byte of it was accepted by the destination, and buffered bytes were flushed. After the destination failed, nothing more is written to it and the failure is reported.""",
     ["fault_sequences", "inputs"], "every point at which the destination fails or takes only a part, every message",
     "the tests write to vectors, which never fail and take everything",
     ["http/mod.rs", "http/headers.rs"], [("writers", "Response::write, Request::write and what they call")],
     "typestate of the destination over the abstract paths of the writers",
     NOTE + "io::copy and write_all are assumed to fulfil their contracts")
prop("P07", "What is written is a well formed message carrying exactly its fields",
     """A response is written as HTTP/1.1, its status, one line per value of each header under the name it is stored with, a blank line and the body; a request likewise with its method, target and version. If there is no Content-Length one is generated,
     once, equal to the length of the body, and exactly as many bytes of body are written as its length says, or an error is reported. The client never sends a body without announcing its length.""",
     ["inputs"], "all messages: any headers, any values, any body and any announced length",
     "the tests compare a handful of messages whose body is as long as announced",
     ["http/mod.rs", "http/headers.rs", "http/client/mod.rs"], [("writers", "Response::write, Request::write, Headers::write, Body::write"), ("client", "Client::run")],
     "token language of the writers (regular grammar checked as a typestate, with provenance of every token)",
     NOTE + "line breaks inside values set by a handler are not examined; a length set by the user that differs from the body's is written as set; a request written without the client announces no length for its body (as the existing tests require)")
prop("P11", "Reading a request and writing a response are bounded by the configured times",
     """Every request is read and every response written through a timed stream of its own that carries the limits the server was configured with, reads and writes each with theirs. Before each operation, the time it may wait is the configured limit
     minus the time already spent in all earlier operations of that direction; when nothing is left, the operation is not started and reported as timed out. A limit set on a connection is the one its waits use.""",
     ["schedules", "histories"], "every division of a message into operations and every time they take",
     "the only test has one read that exceeds the limit at once; drip-fed messages are what the limit is for",
     ["streams/timeout_stream.rs", "streams/cancellable_stream.rs", "lib.rs", "http/client/mod.rs"],
     [("accounting", "TimeoutStream and its Operation"), ("waits", "CancellableStream read_int / write_int: Poller::wait"), ("use", "handle_connection, handle_busy, Server::from_timeouts")],
     "symbolic dataflow: provenance of every limit and of every span measured, over chains of three operations on one stream",
     NOTE + "a single write may wait several times within its limit, so the total time of one write call is not claimed; clocks are assumed monotonic")
prop("P20", "Every layer around a connection moves the bytes unchanged",
     """Reading or writing through any layer reports exactly the bytes that were moved on the connection, contiguously and through the caller's buffer; a failure is never turned into success, nor are bytes taken from the connection and dropped, and a write that is reported as interrupted, which makes its writer repeat it, has written nothing.
     Bytes of an encrypted connection all pass the encryption. Flushing any layer flushes the connection and reports the outcome.""",
     ["inputs", "fault_sequences"], "every partial transfer and failure of the connection, every size of the buffer",
     "loopback sockets in tests take everything at once, so partial writes and would-block in the middle never happen",
     ["streams/cancellable_stream.rs", "streams/observable.rs", "streams/timeout_stream.rs", "streams/tls/mod.rs"], [("layers", "Read and Write implementations of the stream types")],
     "typestate of the transfer (offset arithmetic over the abstract paths) for every layer, instantiated over plain and TLS connections",
     NOTE + "what rustls and the kernel do with the bytes is outside")
prop("P21", "Shutting a connection down wakes and ends its pending operations",
     """Shutting a connection down marks it as done before its socket is shut down, in the direction asked for, and reports that outcome. Every wait on a connection is armed for the right direction, and an operation that waited reports a time out only after it found the mark unset;
     when it finds the mark set it reports that the connection is closed. Connections are never left or made blocking.""",
     ["schedules"], "every interleaving of a shutdown with operations of another thread",
     "the window between the end of a wait and looking at the mark cannot be scheduled by a test",
     ["streams/cancellable_stream.rs"], [("mark", "CancellableStream::shutdown: done"), ("waits", "read_int, write_int: Poller::modify, Poller::wait")],
     "ordering and typestate analysis of both sides of the cancellation over instantiated layers",
     NOTE + "that shutting a socket down makes it ready for the poller is assumed (kernel)")
prop("P22", "The connections closed at shutdown are exactly those in use",
     """Every connection is added to the list of connections before a worker gets it, under a fresh key, and the entry goes away when its last user drops it, which removes that entry and no other. Taking the connections out of the list yields every one of them.""",
     ["histories", "schedules"], "every history of connections coming and going",
     "the tests track a couple of connections; keys that collide or entries left behind need many",
     ["streams/observable.rs", "lib.rs"], [("tracking", "ObservedStreamList::track, drain, dropped"), ("destructor", "Drop of ObservableStream")],
     "effect analysis of the list operations with provenance of keys and pointers; ownership of the handle in the job",
     NOTE + "HashMap and Weak are assumed to fulfil their contracts")
prop("P01", "No received message makes reading it panic",
     """Whatever bytes arrive, reading a request, a response, its headers or its body ends with a value or an error: it never panics. This covers every access to a position of the received data,
     every cut of it, every subtraction or addition of lengths and every conversion of its text.""",
     ["inputs"], "all byte sequences, split into reads in any way",
     "the panics hide behind lengths of zero, one or two and behind cuts inside characters; the input space is unbounded",
     ["http/mod.rs", "http/headers.rs"], [("request and response parsing", "Request::read_from, Response::read_from, Headers::read_from"), ("body framing", "Body::read_from, Body::read, Body::ensure_read"), ("persistence", "Request::is_connection_persistent")],
     "zone-domain (difference bound) abstract interpretation of the parsers' MIR discharging every bounds, overflow and precondition obligation; reachability of panics",
     NOTE + "additions of two 64 bit byte counters are taken not to overflow; running out of memory or stack is not covered")
prop("P02", "A connection that ends halfway never yields a message",
     """Once reading a message's start line or headers meets the end of the input or a failing read, nothing more is read for that message and the reading ends with an error.
     A connection closed halfway never yields a message, nor keeps its reader busy.""",
     ["inputs", "fault_sequences"], "every point of the start line or headers at which the input ends or fails",
     "the tests end their inputs at a few places; a loop that spins at the end of the input hangs only for the prefix that reaches it",
     ["http/mod.rs", "http/headers.rs"], [("request and response parsing", "Request::read_from, Response::read_from, Headers::read_from and what they call")],
     "typestate of the source over the abstract paths of the parsers: end of input as an absorbing state",
     NOTE + "a body cut short is not covered: reading it reports the end of the input")
prop("P03", "The length of a body is decided once, by the received headers",
     """A message whose headers announce a transfer encoding other than identity, or a Content-Length that is no number or differs between headers, is refused; one without a length or with length zero has no body; any other has
     exactly the announced number of bytes, taken from the same connection right after the headers, and, except for a content type that is none, nothing else is refused. Reading the body never goes past that length, and skipping what is left of it skips all of it or fails.""",
     ["inputs", "histories"], "every combination of framing headers, every length and every amount of body already read",
     "request smuggling needs combinations of framing headers no test tries; what is left of a body shows only in the next request",
     ["http/mod.rs", "http/headers.rs"], [("decision", "Body::read_from"), ("use", "Request::read_from, Response::read_from, Body::read, Body::ensure_read")],
     "decision table over the abstract paths of the framing function, provenance of the length and of the reader of the body",
     NOTE + "a body that the connection cuts short reads as ended; which texts count as numbers is left to the standard library's parser")
prop("P05", "The start line is handed over as it was received",
     """A request's method, target and version are the three parts of its first line, in that order, separated by one space each and ended by a CR LF; a line that does not have this form, or an unknown method, is refused.
     A response's status is the number given by exactly three characters after the version.""",
     ["inputs"], "all start lines",
     "the tests parse well formed lines and a couple of malformed ones",
     ["http/mod.rs"], [("request line", "Request::read_from"), ("status line", "Response::read_from")],
     "token language of the parsers: typestate over the bytes read with provenance of every part handed over",
     NOTE + "the bytes of the target and the version of a response are not validated")
prop("P27", "A client connection serves one request at a time and is kept only clean",
     """A client sends a request on a connection it took out of its pool under the address asked for, or on a new one to that address, and reads the response from that same connection after the request was completely written.
     The connection goes back to the pool, once and under its address, only when the response is dropped, the request asked to keep the connection, the response has a length and does not announce to close, and its body was read to the end.""",
     ["histories", "inputs"], "every sequence of requests, responses, failures and partly read bodies",
     "a connection kept with something of the last exchange left on it shows only in a later request to the same address",
     ["http/client/mod.rs", "http/client/connection_pool.rs"], [("exchange", "Client::run"), ("return", "Drop of the response"), ("storage", "Pool::get, Pool::insert")],
     "typestate of the client's connection over the abstract paths of the exchange and of the destructor, with provenance of address, connection and conditions",
     NOTE + "a body the user replaces with another one is not examined, nor is the age of a connection taken from the pool")
prop("P24", "Routing picks the longest registered route",
     """Looking a path up yields the action registered last for the request's method at the longest registered route that the path begins with, or nothing if that route has no action for the method or there is no such route.
     Registering an action changes what is found at its route and method only, and neither looking up nor registering fails for any path, non-empty route and method.""",
     ["histories", "inputs"], "every set of registered routes, every path and every method",
     "the tests register two or three routes; a route lost or shadowed depends on which others share its beginning",
     ["router/mod.rs", "router/trie.rs"], [("lookup", "Router::get_prefix and the search of the tree"), ("registration", "Router::add and what changes the tree")],
     "typestate of the walk along the path (place reached, best value so far) and effect analysis of the functions that change the tree",
     NOTE + "a registration written as a loop along the path is not judged, nor is one writing through other aliases of the tree; routes are compared byte by byte, as the code does")
prop("P25", "An action sees the normalised target the request was routed by",
     """The path a request is routed by, and the target its action sees, is the request's own target with '.' removed and every '..' taking the component before it away; all other components stay, in their order.
     A target that does not start at the root, or that leads above it, is refused and no action is called for it.""",
     ["inputs"], "every target",
     "the tests normalise five paths; a way out of the root needs a particular mix of components",
     ["router/mod.rs", "lib.rs"], [("normalisation", "PathBuf::normalize"), ("use", "run_action")],
     "typestate of the path being built over the components read, provenance of the path routed by and of the target handed to the action",
     NOTE + "std's splitting of a path into components is assumed to fulfil its contract; a normalisation that does not build a PathBuf component by component is not judged")
prop("P31", "A file is served whole, typed and only from its directory",
     """Serving a file answers 200 with the file found in the given directory under the target without its leading slash: its length, its content from the start and the type guessed from its name.
     If there is no such file it answers 404, on any other failure 500; it uses no other path and never panics.""",
     ["inputs", "histories"], "every target, directory and state of the file system at each step",
     "the tests serve two existing files and one missing; a failure between two steps, an unreadable or a special file is never met",
     ["wruster_handlers/src/lib.rs"], [("serving", "serve_static")],
     "typestate of the file system calls on every abstract path, with provenance of the path used and of length, content and type answered",
     NOTE + "a file that changes while it is served is not judged; where a symbolic link leads, and a target that was not normalised before, are the caller's")
prop("P32", "The logging middleware changes nothing",
     """A handler wrapped by the logging middleware is called exactly once per request, with the request as it was received, and the response it returns is returned untouched.
     The middleware itself never panics, whatever is logged.""",
     ["inputs"], "every handler, request, response and log level",
     "the tests look at the response of one handler with the log switched off",
     ["wruster_handlers/src/lib.rs"], [("middleware", "log_middleware")],
     "effect analysis and value identity over every abstract path of the closure returned, with the log switched on and off",
     NOTE + "formatting a request or a response for the log is assumed to change nothing, as it takes shared references")
prop("P04", "Headers are kept as received and found whatever their case",
     """Every header line read is a name, made of one or more token characters, directly followed by a colon and a value without control characters; any other line is refused. What is kept of it is the whole value without the white space around it, and the name with only the case of its letters changed, in a form that does not depend on the case it was written in and is the one looked for.
     No header is lost: all values of a name are kept, in the order they came, and looking a name up yields exactly them.""",
     ["inputs"], "every header line and every sequence of headers",
     "the tests read a few ordinary headers; a character too many or few in a class, or a value lost, needs the one line that has it",
     ["http/headers.rs", "http/mod.rs"], [("line", "Header::read_from"), ("collection", "Headers::add, get, read_from"), ("names", "the normalisation of names")],
     "typestate of the header line with the set of values each byte can have, case closure of every decision of the normaliser, and effect analysis of the collection",
     NOTE + "a line taken apart by searching instead of byte by byte is not judged; bytes above 127 are read as the characters of that number; a name set by the user is not normalised")
prop("P28", "The client's pool gives back what was put in, within its bounds",
     """A connection put into the client's pool is given out to whoever asks for the address it was put in under, at most once; until then it leaves the pool only when another one is put in under the same address, when it has been idle for the time set, or when a hundred are kept, none under the address of the new one, and none of them has been unused for longer.
     Never more than a hundred are kept, connections idle for too long are let go by a worker that looks again and again, without keeping the pool locked while it waits.
     Dropping the pool ends that worker at once, and dropping a client shuts down every connection it keeps.""",
     ["histories", "schedules", "inputs"], "every sequence of connections put in and taken out, every choice of addresses and times",
     "the tests put one connection in and take it out; the hundred and first, or the second sweep of the worker, is never reached",
     ["http/client/connection_pool.rs", "http/client/mod.rs"], [("operations", "Pool::get, Pool::insert, Pool::remove_lru, Pool::drain"), ("worker", "Pool::expire_connections and Drop of Pool"), ("client", "Drop of Client")],
     "typestate of the pool's map along every abstract path of each operation, inductive check of the search for the one to let go at each loop head, provenance of flag, map and time limit of the worker",
     NOTE + "a search written otherwise than as a loop over the map or as min_by/min_by_key is reported as not understood; whether a connection taken out is still open is not judged; a panic of another holder of a lock (poisoning) is left aside")
prop("P34", "The static web server does what its command line says",
     "The static web server listens on the address given on its command line and answers GET requests for any path with the files of the directory given there, and with nothing else. When a certificate and a key are given it speaks only TLS, with exactly that pair; plain text is spoken only when neither is given, never as a fallback. The process reports success only after waiting for the server succeeded, reports failure when a file cannot be read, the address cannot be bound or the server fails, and does not end while its server runs.",
     ["inputs", "histories"],
     "every command line, every request and every outcome of reading the files, starting the server and waiting for it",
     "no test runs the program; a fallback to plain text, a swapped file or a success status after a failure shows only with a command line or a failure nobody tried",
     ["wrustatic/src/main.rs"],
     [("program", "main"), ("command line", "Cli")],
     "abstract interpretation of the program's entry point with the library as uninterpreted calls; typestate of start, wait and exit; extraction of the generated command line description (ids, positions, requires) and of the field each argument lands in",
     NOTE + "that the parser enforces what the description of the command line demands is clap's; both options missing their counterpart are refused by it or end the process before anything is served")
prop("P33", "The dummy server answers what its configuration says",
     "The dummy server listens on the address given as its first argument and answers, for every route in the configuration file given as its second, that route's path and method with the status, content, content type and length configured for it; no configured route is left out and none is made up. A configuration that cannot be read, or has a method or content type that is not known, ends the process with a failure before anything is served. The process reports success only after waiting for the server succeeded and does not end while its server runs.",
     ["inputs", "histories"],
     "every pair of arguments, every configuration and every outcome of reading it, starting the server and waiting for it",
     "no test runs the program; a route left out, a length in characters or a success status after a failure shows only with a configuration or a failure nobody tried",
     ["wrusdummy/src/main.rs"],
     [("program", "main"), ("handler", "serve_route"), ("configuration", "Routes::from_file")],
     "abstract interpretation of the program's entry point with the library as uninterpreted calls: inductive check of the loop over the routes, provenance of what is answered down to the field of the configured route, typestate of start, wait and exit",
     NOTE + "that the fields of the configuration file land in the fields of the same name is the YAML reader's; which of two routes with the same path and method wins is not judged")
prop("P26", "A message made from parts carries exactly those parts",
     "A response made from a status, from content or from text, a request made from a body or from a value, and a body made from text carry exactly the method, target, status, type and content they are made from, in version HTTP/1.1, with the content read from its start. The length of a text is its number of bytes, whatever characters it has. The headers such a message has from the start are only the length and the type of its own body, with exactly these values.",
     ["inputs"], "every status, text, type, length, method, target and body",
     "the tests make a handful of messages from short ASCII texts; a length in characters or a header that differs from the body needs the text or the length that shows it",
     ["http/mod.rs"], [("responses", "Response::from_status, from_content, from_str"), ("requests", "Request::from_body, from, IntoRequest"), ("bodies", "Body::new, from, IntoBody")],
     "value identity: abstract interpretation of every maker, generic ones on their generic body, with the provenance of each part and header of what is made",
     NOTE + "content from a reader longer than the length given is cut when written (P07), not judged here; the version a generic function uses is a constant that is not evaluated")
prop("P35", "A TLS server uses the certificate and key of the files it is given",
     "Reading a certificate from a file gives the first certificate that this very file holds, and reading a private key gives the key it holds, in any of the supported forms (RSA, PKCS8, EC), each unchanged; a file that cannot be opened or read, or that holds none, gives an error and never a panic. Every connection a TLS server accepts is secured with exactly the certificate and key the server was started with, or fails with an error.",
     ["inputs", "fault_sequences"], "all contents of the files, every failure to open, read or decode them, every failure to set up a secured connection",
     "the tests have one certificate and one key file, of one form, that are always readable",
     ["streams/tls/mod.rs", "lib.rs"], [("reading", "Certificate::read_from, PrivateKey::read_from"), ("securing", "tls::Stream::new"), ("serving", "Server::run_tls")],
     "value provenance of every abstract path from the opened file to the certificate, the key and the configuration of each secured connection, with proved index bounds",
     NOTE + "the decoding of PEM files and the cryptography are the libraries'; only the first certificate of a chain is used; a key that does not belong to the certificate is not told")

prop("P36", "What made a message fail is reported as what it is",
     "When reading or writing a message fails because of its connection, the error reported is that failure: running out of time is reported as a timeout, a connection that is not connected any more as a closed connection, and every other failure as an unknown error, never as an invalid message. A timeout is never reported when nothing timed out.",
     ["fault_sequences"], "every failure of the connection at every operation of reading or writing a message",
     "the only test with a timeout has it in the first bytes of a request; every later operation reports through code of its own",
     ["http/errors.rs", "http/mod.rs", "http/headers.rs"], [("translation", "From<io::Error> for HttpError"), ("readers", "Request::read_from, Response::read_from, Headers::read_from, Body::ensure_read"), ("writers", "Request::write, Response::write")],
     "typestate of the last operation on the connection over every abstract path, with the set of error kinds the path has established at each error reported",
     NOTE + "whether an invalid message is told from an unsupported one is not judged")

prop("P23", "No thread blocks itself or another one for ever on a lock",
     "No operation asks for a lock, or for a borrow that excludes others, that its own thread already holds, whether directly, through the functions it calls, or through the destructor of a value it lets go of. No two locks are taken by different operations in opposite orders. A lock that several connections or routes share is never held while the network is waited for or the thread sleeps.",
     ["schedules", "histories"], "every path through every operation, every interleaving of the threads",
     "a self deadlock needs the path that asks again (the last holder of a connection going away inside the lock), an inversion needs two threads at the right moment",
     ["streams/observable.rs", "streams/cancellable_stream.rs", "http/client/mod.rs", "http/client/connection_pool.rs", "thread_pool/dynamic_pool.rs", "router/mod.rs"],
     [("locks", "every call to Mutex::lock, RwLock::read/write, AtomicRefCell::borrow/borrow_mut"), ("destructors", "every Drop implementation and every place that drops a type that reaches one")],
     "dataflow of held guards over the MIR of every function, with summaries of the locks each function and each destructor asks for; cycles of the lock order graph",
     NOTE + "destructors behind a trait object and functions of the user are not followed; waiting for a thread to end while holding a lock it needs is judged for the pool by P18, not here; the lock of a TLS connection is its own and is held while it reads and writes")

prop("P29", "The library leaves the process it runs in and the files around it alone",
     "Nothing that the libraries or the two programs do writes, creates, changes or removes a file or a directory, whatever a request asks for; the only files they touch are read. None of them starts a program, or changes the environment, the current directory, the panic hook or the signals of the process. No request, and no call into the libraries, ends the process.",
     ["inputs", "histories"], "every function of the libraries and of the programs, reached or not",
     "a test looks at what an operation is supposed to do; a file left behind or a process ended in a rare branch needs that branch, and somebody looking elsewhere",
     ["lib.rs", "http/mod.rs", "streams/tls/mod.rs", "thread_pool/dynamic_pool.rs"],
     [("effects", "every function of wruster, wruster_handlers, wrustatic and wrusdummy"), ("actions", "every function or closure that takes a request to a response, and what it calls")],
     "effect analysis: every function named, called or passed on, in the compiler's intermediate representation of every function of the workspace",
     NOTE + "effects inside other crates are judged by the name of the operation used; a panic, which ends a thread and not the process, is judged elsewhere (P22, P28 and others)")

prop("P30", "No program without unsafe code can be made to touch memory that is not its own",
     "The libraries and the two programs contain nothing that the compiler does not check for memory safety and for safe sharing between threads: no input, schedule or use of the libraries from a program that is itself checked reads or writes memory that is not its own, sees memory that was not set, or shares between threads what must not be shared, unless a library underneath does.",
     ["inputs", "schedules", "histories"], "every body of the libraries and of the programs",
     "memory errors need the input or the interleaving that shows them, and a test that passes says nothing about the memory it touched",
     ["lib.rs", "http/mod.rs", "streams/mod.rs", "router/mod.rs", "thread_pool/mod.rs"],
     [("bodies", "every function, closure, block and implementation of wruster, wruster_handlers, wrustatic and wrusdummy")],
     "query over the type checked program of every crate for anything marked as unchecked, with the guarantee of the language for what is not",
     NOTE + "the soundness of the standard library, of the compiler and of the other crates is theirs")

prop("P37", "Nothing waits by spinning",
     "A thread of the libraries that waits for something another thread, a peer or the clock does, gives the processor away while it waits: each round of a loop that looks at such a thing sleeps, yields, waits for an event, a message or a thread, reads or writes, or takes one more of a finite number of things. So an idle server, an idle pool and an idle client use no processor time.",
     ["schedules", "histories"], "every loop of every function of the workspace, every number of rounds",
     "a loop that spins does what it should, only hotter; no test looks at the time it takes from the others",
     ["lib.rs", "http/client/connection_pool.rs", "thread_pool/static_pool.rs", "thread_pool/dynamic_pool.rs", "streams/cancellable_stream.rs"],
     [("loops", "every loop of every function and closure")],
     "control flow analysis: every cycle of the flow graph of every function has to pass an operation that waits or gets further, with summaries for the functions it calls",
     NOTE + "a function of the user is assumed to wait; a wait whose time is worked out and turns out to be zero, and an event that is reported again and again, are not told")
