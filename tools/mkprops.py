#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- core
p("C01", "Channels hand over each message exactly once, in order, intact",
  "A channel send succeeds exactly when one receive on the opposite half gets that message: every message is delivered once, byte for byte, to one receiver, waiting senders and waiting receivers are served first-come first-served in each direction, and a rendezvous whose sizes differ fails with EMSGSIZE on both sides without touching any buffer. "
  "A send or receive that reports ETIMEDOUT or ECANCELED has transferred nothing and leaves nothing behind in the channel. "
  "After chdone every blocked and every later sender and receiver of that direction gets EPIPE, a second chdone gets EPIPE, and the opposite direction keeps working.",
  ["histories", "schedules"], "All interleavings of chsend, chrecv, chdone and choose by any number of coroutines on both halves, with any sizes and deadlines, and cancellation of blocked coroutines.",
  "tests/chan.c runs about a dozen fixed scripts with one or two peers; none mixes timeouts, cancellation, size mismatch and chdone with several queued peers.",
  ["chan.c", "cr.c"], [("sender and receiver clause lists per half-channel", "chan.c dill_chsend/dill_chrecv"), ("clause removal on timeout or cancel", "chan.c dill_chcancel"), ("wake-up of all waiters", "chan.c dill_chdone")],
  ["return values, errno and buffers of chsend/chrecv/chdone"])
p("C02", "choose performs exactly one operation, the first possible one",
  "choose performs exactly one of its clauses: if some clauses can proceed (or fail) at once, the one earliest in the array, otherwise the one whose peer shows up first; it returns that index with errno 0, or with the errno of that clause (EBADF, ENOTSUP, EINVAL, EMSGSIZE, EPIPE). "
  "All other clauses have no effect on their channels, neither while choose is blocked nor afterwards. "
  "With no clause possible it returns -1 with ETIMEDOUT not before the deadline, and an empty clause list just waits for the deadline.",
  ["histories", "inputs", "schedules"], "All clause arrays (sends, receives, duplicates of a channel, bad handles, bad ops) over channels in any state, with peers doing chsend, chrecv, choose and chdone.",
  "tests/choose.c covers two or three clauses in fixed situations; the clause-array, channel-state and peer-order space is combinatorial.",
  ["chan.c", "cr.c"], [("left-to-right scan before blocking", "chan.c dill_choose"), ("cancellation of all clauses on the first trigger", "cr.c dill_docancel")],
  ["index, errno, buffers; later channel behaviour"])
p("C03", "Coroutines run at once when launched and are then scheduled fairly",
  "A coroutine launched with go or bundle_go runs immediately, before the launching call returns, and the launcher is queued behind everything that was already ready. "
  "Ready coroutines run strictly in the order in which they became ready, each exactly once per time it was made ready, so that a yield lets every other ready coroutine run before it returns 0. "
  "Coroutines that keep yielding do not starve timers or file descriptors: expired deadlines and ready descriptors are still noticed within about a second.",
  ["schedules", "histories"], "All programs of go, bundle_go, yield, channel hand-offs, msleep and fd waits by any number of coroutines.",
  "tests/go*.c check a few fixed interleavings by a counter; order under mixed wake-up sources and starvation are not tested.",
  ["cr.c", "qlist.h"], [("FIFO ready queue", "cr.c dill_resume, dill_wait"), ("poll at least once a second", "cr.c dill_wait last_poll")],
  ["global order of trace events"])
p("C04", "Deadlines are honoured: never early, in order, at any distance",
  "A blocking call whose deadline passes returns (msleep 0, any other call ETIMEDOUT) never before its deadline and as soon as the event loop sees the deadline expired, and sleepers wake in deadline order, equal deadlines in any order. "
  "Deadline 0 never blocks beyond what can be done immediately, -1 never times out, past deadlines behave as expired, and deadlines arbitrarily far in the future neither fire early nor delay anybody else. "
  "A call completed before its deadline is not affected by that deadline later.",
  ["histories", "inputs", "schedules"], "All multisets of pending deadlines (past, now, near, days, years), with timers cancelled by completion or by hclose in any order.",
  "tests/sleep.c and tests/rbtree.c use real time and a handful of sleepers; long distances would take days of real time.",
  ["cr.c", "rbtree.c", "now.c", "libdill.c"], [("ordered timer tree", "rbtree.c"), ("poll timeout from the earliest deadline", "cr.c dill_wait"), ("timer removal", "cr.c dill_timer_cancel")],
  ["virtual time at which each call returns"])
p("C05", "Closing a coroutine cancels it fully before hclose returns",
  "When hclose is called on a coroutine or bundle, its unfinished coroutines are cancelled (those of a bundle one after another): from then on every call of such a coroutine that would have to wait, pending or attempted later, on an object of any kind, fails with ECANCELED at once without doing anything, and hclose returns 0 only after all of them have returned. "
  "Finished coroutines are not disturbed, each coroutine body runs to its end exactly once, and the caller of hclose can still block afterwards. "
  "While an object is being closed (inside a close callback) blocking calls, go and hmake fail with ECANCELED.",
  ["schedules", "histories"], "All trees of coroutines and all points at which an owner closes them: ready, running, blocked in any call, sleeping, finished, or themselves closing others.",
  "The tests cancel one coroutine blocked in one call at a time; nesting and the rest of the blocking calls are not combined.",
  ["cr.c", "handle.c"], [("no_blocking flags", "cr.c dill_canblock"), ("closer rendezvous", "cr.c dill_cr_close, dill_epilogue")],
  ["errno of blocking calls in cancelled coroutines; order of finish events and hclose return"])
p("C06", "bundle_wait returns exactly when the bundle has become empty",
  "bundle_wait returns 0 only when no coroutine of the bundle is unfinished, returns at once if there is none, and returns as soon as the last one finishes; if the deadline comes first it returns ETIMEDOUT, never early, and the coroutines keep running. "
  "Coroutines added with bundle_go, before or during the wait and also by members of the bundle, all count, and the bundle stays usable after a wait. "
  "go returns a handle that behaves as a bundle with one coroutine.",
  ["histories", "schedules"], "All histories of bundle, bundle_go, bundle_wait with any deadline, hclose, and coroutines finishing in any order.",
  "tests/bundle.c has a few fixed scenarios with up to three workers.",
  ["cr.c"], [("membership list and waiter clause", "cr.c dill_bundle_wait, dill_epilogue")],
  ["return value and time of bundle_wait against the finish log"])
p("C07", "Handles are unique while open and invalid once closed or transferred",
  "hmake, hown and every constructor return a non-negative number that no other open handle has; hquery reaches exactly the object the handle was made for; hclose closes that object exactly once; hown gives the object a new number without closing it. "
  "Any call on a number that is not an open handle, including closed and transferred ones until the number is issued again, fails with EBADF and affects nothing, and a recently freed number is not reissued at once. "
  "This holds however many handles are open and whatever handles are opened or closed by callbacks in progress, and a failing hown closes the old handle.",
  ["histories", "inputs"], "All histories of hmake, hown, hquery, hclose over thousands of handles, including handle operations performed inside query and close callbacks and by other coroutines while a close is in progress, and arbitrary integers as handles.",
  "tests/handle.c makes a handful of handles; table growth, reuse order and re-entrancy are not exercised.",
  ["handle.c", "ctx.c"], [("handle table with free list", "handle.c dill_hmake, dill_hclose, dill_hown"), ("query cache", "handle.c dill_hquery")],
  ["returned numbers, hquery pointers, close callbacks"])
p("C08", "A coroutine's stack and locals survive any switching",
  "Whatever other coroutines do meanwhile, a coroutine resumes with its local variables, arguments and deep call frames unchanged and with its own errno result, on stacks allocated by the library as well as on user-supplied ones of any address, alignment and sufficient size. "
  "The 256 kB stack is fully usable, overflowing it faults instead of corrupting memory, and with go_mem and bundle_go_mem nothing outside the supplied buffer is written. "
  "A buffer too small to hold a coroutine is refused with ENOMEM.",
  ["schedules", "inputs", "configurations"], "All switch patterns, recursion depths, argument values and memory buffers, on both the assembly and the portable stack switch.",
  "Tests keep almost no state across switches and use one go_mem buffer size.",
  ["libdill.h", "cr.c", "stack.c"], [("register save/restore in dill_setjmp/dill_longjmp", "libdill.h"), ("stack allocation with guard page and cache", "stack.c"), ("stack placement in user memory", "cr.c dill_prologue")],
  ["checksums of locals; canaries around buffers"])
p("C09", "Nothing leaks: closed objects give everything back",
  "Once all handles of coroutines, bundles, channels and sockets are closed or detached, in any way and after any outcome including errors, no memory, handle number or file descriptor belonging to them remains in use, apart from bounded internal caches. "
  "Repeating any workload therefore does not increase memory, handle or descriptor usage beyond a constant. "
  "Objects created in caller-supplied storage never free or outgrow that storage, and save the allocation the documentation says they save.",
  ["histories", "fault_sequences"], "All sequences of creation, use, failure, detach and closing of every object type, in heap and _mem form, repeated.",
  "No test measures resources; leaks and lost handle numbers are invisible to return-value assertions.",
  ["handle.c", "cr.c", "chan.c", "tcp.c", "ipc.c", "udp.c", "prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "tls.c", "socks5.c", "fd.c", "stack.c"],
  [("close callbacks free objects", "all protocol files"), ("bounded caches", "stack.c, fd.c")],
  ["live allocations, open descriptors, handle numbers after repeated workloads"])
p("C10", "Threads are isolated from one another",
  "Each thread has its own coroutines, handles, timers and descriptors: what one thread does never changes the results of another, handles of one thread are not valid in another through sharing, and the same program yields the same results in every thread no matter how many run in parallel. "
  "When a thread exits its resources are released and later threads start from a clean state.",
  ["schedules", "configurations"], "All numbers of threads running arbitrary single-threaded programs concurrently, started and exited repeatedly, in both thread-local-storage implementations.",
  "tests/threads*.c start one thread with a trivial coroutine.",
  ["ctx.c", "ctx.h"], [("per-thread context and destructor", "ctx.c dill_ctx_init, dill_ctx_term")],
  ["per-thread result logs; allocations and descriptors after thread exit"])
p("C11", "Running out of memory or descriptors is reported cleanly and is survivable",
  "If a memory allocation or the creation of a descriptor fails inside any constructor (go, bundle, chmake, hmake, listeners, connections, attach functions) the call returns -1 with ENOMEM, EMFILE or ENFILE, nothing leaks, nothing already existing is affected, and an attach that fails does not destroy more than the documentation says. "
  "(The first call made in a thread, which sets up the library for that thread, is excepted.) Once resources are available again the same operation succeeds and everything works as if the failure had not happened.",
  ["fault_sequences"], "Every allocation or descriptor creation as the failing one, in random programs using all object types.",
  "No test injects a failure.",
  ["cr.c", "chan.c", "handle.c", "stack.c", "ipc.c", "tcp.c", "udp.c", "prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "tls.c"],
  [("error unwinding labels", "all constructors")], ["return values, errno, resource counts, follow-up operations"])
# ---------------------------------------------------------------- fds
p("D01", "fdin and fdout report readiness exactly, one waiter per direction",
  "fdin (fdout) on a descriptor returns 0 if and only if the descriptor is readable (writable), in error, or hung up; while it is not, the call blocks until it is, or until the deadline, or until cancellation, and no event is lost or left over for a later or different wait, also when descriptors are closed after fdclean and their numbers reused. "
  "A second coroutine waiting for the same direction of the same descriptor gets EBUSY without disturbing the first, the two directions are independent, and a bad descriptor gets EBADF. "
  "This is the same for every polling backend, and fdclean never fails or crashes for descriptors nobody waits on.",
  ["histories", "schedules", "configurations"], "All histories of fdin, fdout, fdclean, reads, writes, shutdowns and closes over many descriptors and coroutines, with epoll and poll.",
  "tests/fd.c uses one socket pair with a few waits; event-set caching bugs need longer histories over several descriptors.",
  ["epoll.c.inc", "poll.c.inc", "libdill.c", "pollset.c"], [("cached per-descriptor event registration", "epoll.c.inc dill_pollset_in/out/poll/clean"), ("compact pollset", "poll.c.inc")],
  ["return values of fdin/fdout against poll(2) on the same descriptors"])
# ---------------------------------------------------------------- sockets
p("S01", "TCP and IPC deliver the byte stream complete, in order, unaltered",
  "On a TCP or IPC connection the concatenation of the successfully received bytes is always a prefix of the concatenation of the sent bytes, whatever the sizes, the split into calls and buffer lists, and the way the kernel fragments it; each successful send or receive transfers exactly the requested number of bytes, and after an orderly end the receiver has got everything followed by EPIPE. "
  "Buffers marked NULL skip exactly their length, receiving never writes outside the given buffers, and both directions are independent. "
  "This holds for connected, accepted, wrapped (fromfd) and paired sockets.",
  ["inputs", "histories", "schedules", "fault_sequences"], "All sequences of bsend, bsendl, brecv, brecvl with any sizes and lists on both ends, any short read or write by the kernel, and any coroutine schedule.",
  "tests/tcp.c and ipc.c exchange a few short buffers; the receive buffer boundaries, short writes and skip lists are not covered.",
  ["fd.c", "tcp.c", "ipc.c", "iol.c", "bsock.c"], [("receive buffer and large-read bypass", "fd.c dill_fd_recv"), ("partial write continuation", "fd.c dill_fd_send")],
  ["bytes received on the peer; canaries around buffers"])
p("S02", "Connections end cleanly: done, close, reset and errors follow the model",
  "After done, further sends fail with EPIPE while receiving continues, and the peer receives all data sent before and then EPIPE for ever; a second done fails with EPIPE; close returns 0 only after the peer has also finished, drops unread data, and releases the socket in every case. "
  "If the peer goes away abruptly, operations fail with ECONNRESET or EPIPE, never with a signal or a crash, and never with success. "
  "Once a send (receive) has failed, including by timeout, every later send (receive) on that connection fails too, while invalid arguments or deadlines elsewhere do not affect it.",
  ["histories", "schedules"], "All histories of bsend, brecv, done, close, hclose with deadlines on both ends of TCP, IPC and accepted or paired connections.",
  "The tests walk through a few fixed shutdown orders, tests/tcp is flaky and excluded.",
  ["tcp.c", "ipc.c", "fd.c"], [("in/out done and error flags", "tcp.c, ipc.c"), ("close drains until end of stream", "tcp.c dill_tcp_close, ipc.c dill_ipc_close")],
  ["return value and errno of each operation against a two-endpoint model"])
p("S03", "A socket in use by one coroutine is EBUSY to others, undisturbed",
  "While one coroutine is blocked in a send (receive) on a socket, a send (receive) on it by another coroutine fails at once with EBUSY, has no effect on the data or on the state of the socket, and the first operation completes as if nothing happened. "
  "A send and a receive may be in progress at the same time. When the first operation ends in any way, the direction is available again.",
  ["schedules", "histories"], "All pairs of operations by two coroutines on TCP, IPC, UDP and layered sockets, with the first one completing, timing out or being cancelled.",
  "No test checks EBUSY on connections except one case in tests/tcp, which is excluded.",
  ["tcp.c", "ipc.c", "udp.c"], [("rbusy/sbusy flags", "tcp.c, ipc.c, udp.c")], ["errno of the second call, data of the first"])
p("S04", "Malformed buffer lists get EINVAL and lists are left as they were",
  "Every list-taking call (bsendl, brecvl, msendl, mrecvl, udp_sendl, udp_recvl, ws_sendl, ws_recvl) refuses a malformed list with EINVAL: last not in the list or not its end, loops, non-zero reserved field, one of first and last missing; nothing is sent or received then and the socket still works. "
  "In all cases, success or failure, the list structure is the same after the call as before it. "
  "A well-formed list behaves exactly as one contiguous buffer of the total size, empty elements and a single element included.",
  ["inputs"], "All list shapes (order, lengths including zero, NULL bases, loops, wrong ends, reserved values) on every socket type.",
  "tests/iol.c checks helper functions on a few lists; tests/tcp.c, excluded, has the only end-to-end case.",
  ["iol.c", "bsock.c", "msock.c", "fd.c", "prefix.c", "suffix.c", "term.c", "ws.c", "udp.c"], [("list validation with temporary marks", "iol.c dill_iolcheck")],
  ["byte comparison of the list before and after; data on the wire"])
p("S05", "File descriptors sent over IPC arrive as working duplicates",
  "A descriptor sent with ipc_sendfd is received by exactly one ipc_recvfd on the peer, in order, as a new descriptor referring to the same open file, and the sender keeps its own; surrounding stream data is not disturbed. "
  "Deadlines, closed or reset peers and misuse are reported by -1 and errno as for any other send or receive, without signals, crashes or leaked descriptors.",
  ["histories", "schedules"], "All histories mixing sendfd/recvfd with stream data, deadlines, done, close on both ends.",
  "tests/ipc.c sends one descriptor once.",
  ["ipc.c"], [("SCM_RIGHTS message", "ipc.c dill_ipc_sendfd, dill_ipc_recvfd")], ["identity of received descriptors (fstat), descriptor counts, data"])
p("S06", "Operations on a handle of the wrong kind or state are refused",
  "Every function that takes a handle fails with EBADF if the handle is not open and with ENOTSUP if it is of a different kind (attach functions: EPROTO when the underlying socket is of the wrong kind), and refuses invalid arguments with EINVAL; all handles stay usable exactly as before, except that functions which consume the handle given to them (attach, detach, tcp_close, ipc_close) may close it, completely, even in the case of error. The handle returned by go is that of a bundle. "
  "Attaching a protocol makes the old handle number invalid, detaching returns a handle to the very same underlying socket, and a number given up by attach, detach or close is invalid afterwards.",
  ["inputs", "programs"], "The full matrix of functions and handle kinds (closed, garbage, coroutine, bundle, channel, listeners, connections, each protocol layer), and invalid arguments.",
  "Tests never pass a wrong handle to most functions.",
  ["handle.c", "bsock.c", "msock.c", "tcp.c", "ipc.c", "udp.c", "prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "tls.c", "cr.c", "chan.c"],
  [("typed query per object", "every query callback")], ["errno; continued usability"])
p("S07", "UDP delivers datagrams whole, from the right peer, or not at all",
  "Each received datagram equals, byte for byte and in length, one datagram sent to that socket, with the true source address; it is received once; a message that does not fit the buffers is not passed off as a shorter one; with a remote address set only datagrams from it are received. "
  "Sends go to the given or default address and fail with EINVAL if there is none; a zero port in the local address is filled in with the real one; opening fails if the address cannot be bound.",
  ["inputs", "histories"], "All payload sizes, buffer-list shapes, address combinations and send/receive interleavings.",
  "tests/udp.c sends two short packets.",
  ["udp.c"], [("sendmsg/recvmsg with address filter", "udp.c")], ["payload, size and address at the receiver"])
p("S08", "Address functions agree with the platform's resolver and formatter",
  "Parsing an IPv4 or IPv6 literal, formatting it, extracting family, port and socket address, changing the port and comparing addresses agree with the operating system's own conversions for every address and port; parse and format are inverses, comparison is an equivalence relation that ignores ports exactly when asked. "
  "The mode argument selects the family as documented, a NULL local name gives the wildcard address, interface names give an address of that interface or ENODEV, and bad names, ports or modes give an error, never a crash.",
  ["inputs"], "All IPv4 and IPv6 literals in all textual forms, ports, modes, non-address strings, and interface configurations with any number of addresses.",
  "tests/ipaddr.c formats about ten fixed literals.",
  ["ipaddr.c"], [("inet_pton/inet_ntop based conversion", "ipaddr.c")], ["results compared with getaddrinfo/inet_ntop"])
p("S09", "Name resolution returns the records of the server, filtered by mode",
  "Resolving a host name returns exactly the addresses the name server (or hosts file) gives for it, with the requested port, of the families allowed by the mode and in its order of preference, never more than the caller's array holds. "
  "If there is none, ipaddr_remotes returns 0 and ipaddr_remote EADDRNOTAVAIL; failing, slow or malformed answers lead to an error or an empty result by the deadline, without crash or hang; answers that don't belong to the question are ignored, and a lost datagram or a name server that doesn't respond is made up for by asking again or asking the next one.",
  ["inputs", "fault_sequences"], "All answer sets, orders, sizes and modes, and servers that answer late, wrongly or not at all.",
  "Tests resolve one name over the real network or not at all.",
  ["ipaddr.c", "dns/dns.c"], [("asynchronous resolver driven by fdin and msleep", "ipaddr.c dill_ipaddr_remotes")], ["returned address lists against the scripted server"])
p("S10", "Happy Eyeballs connects to a reachable address, preferring IPv6",
  "happyeyeballs_connect returns a working connection whenever at least one resolved address accepts connections within the deadline, trying addresses alternately by family with IPv6 first, starting a new attempt after 300 ms or earlier only if documented, and never abandoning a slow attempt because a later one started. "
  "Otherwise it fails by the deadline. In every case all other attempts are cancelled and nothing is leaked.",
  ["schedules", "inputs", "fault_sequences"], "All sets of addresses with each one accepting, refusing, or silent, with any answer delays and deadlines.",
  "tests/happyeyeballs.c connects to one public host, if there is a network.",
  ["happyeyeballs.c"], [("one coroutine per attempt in a bundle, results through a channel", "happyeyeballs.c")], ["log of connection attempts in virtual time; result"])
# ---------------------------------------------------------------- protocols
p("M01", "PREFIX framing preserves message boundaries and contents",
  "Over any bytestream each message sent through a PREFIX socket is received by the PREFIX peer with the same header size and byte order exactly once, in order, with the same length and bytes, and the wire holds exactly the length in that order followed by the payload. "
  "A message too long for the header or for the receiver's buffer fails with EMSGSIZE rather than being cut, a NULL list drops one message and returns its size, and after detach both sides continue on the underlying stream exactly behind the last message. "
  "Arbitrary inbound bytes never cause access outside the buffers.",
  ["inputs", "histories"], "All header sizes 1 to 8, byte orders, message sizes and list shapes, and all wire contents.",
  "tests/prefix.c sends a few 3-byte messages.",
  ["prefix.c", "iol.c"], [("length header", "prefix.c")], ["wire bytes; received messages"])
p("M02", "SUFFIX framing preserves messages that do not contain the delimiter",
  "Every message without the delimiter sent through a SUFFIX socket arrives once, in order and identical at the peer using the same delimiter, and the wire holds the message followed by the delimiter; bytes are split at the first occurrence of the delimiter whatever partial delimiters precede it. "
  "A message longer than the receiver's buffer fails with EMSGSIZE and is never passed off as a shorter one, a NULL list drops one message and returns its size, and after detach the stream continues right behind the last delimiter. "
  "Arbitrary inbound bytes never cause access outside the buffers.",
  ["inputs", "histories"], "All delimiters of 1 to 32 bytes (self-overlapping included), messages, list shapes and wire contents.",
  "tests/suffix.c sends three short lines with CRLF.",
  ["suffix.c", "iol.c"], [("byte-wise scan with a delimiter-sized window", "suffix.c")], ["wire bytes; received messages"])
p("M03", "TERM delivers every message before the terminator and then ends",
  "All messages sent before term_done or term_detach arrive unchanged and in order, after which receiving fails with EPIPE for ever; after term_done sending fails with EPIPE while receiving continues, and a second term_done fails with EPIPE. "
  "term_detach sends the terminator if not yet sent, drops remaining inbound messages, and leaves both peers at the same position of the underlying message stream. "
  "Only a message equal to the terminator, in length and contents, ends the stream.",
  ["inputs", "histories"], "All terminators up to 32 bytes, message sets including near-terminators and empty ones, receive buffers smaller and larger than the terminator, and both orders of closing.",
  "tests/term.c exchanges one message.",
  ["term.c"], [("comparison with stored terminator", "term.c")], ["received messages, errno, later messages on the underlying socket"])
p("M04", "HTTP start lines and fields round-trip; malformed input is rejected",
  "Requests, status lines and fields built from valid tokens are received by the peer with the same command, resource, status code, reason, names and values, in order, and the wire text is the HTTP/1.1 text of the documentation; http_done makes the peer get EPIPE after the last field, and detach hands back the stream at the following byte. "
  "Input that does not follow that syntax, is too long, or does not fit the caller's buffers makes the call fail with an error, and output that could not be parsed back is refused. "
  "No input can crash the process or write outside the buffers.",
  ["inputs", "histories"], "All tokens, field sets, buffer sizes, and arbitrary or mutated inbound bytes.",
  "tests/http.c sends one request and one field.",
  ["http.c", "suffix.c", "term.c"], [("line tokenisation", "http.c")], ["received strings; wire text"])
p("M05", "WebSocket messages arrive with type, boundaries and content intact",
  "Every message sent over a WebSocket connection, in either direction, of any size and list shape, arrives once, in order, identical and with the same text or binary type; frames on the wire follow RFC 6455 (minimal length form, client frames masked, server frames not), and any valid fragmentation by the peer yields the same message. "
  "mrecv on a socket of the other type and invalid or unsupported frames give EPROTO, a message larger than the buffer EMSGSIZE, never a partial or altered message. "
  "Arbitrary inbound bytes never cause access outside the buffers.",
  ["inputs", "histories"], "All payload sizes around 0, 125, 126, 65535 and 65536, masks, fragmentations, ping/pong insertions, list shapes and wire contents.",
  "tests/ws.c sends three short messages.",
  ["ws.c"], [("frame encoder and decoder", "ws.c")], ["wire bytes decoded by an independent codec; received messages"])
p("M06", "WebSocket closing handshake carries status and message to the peer",
  "ws_done and ws_detach send one close frame with the given status and text; the peer receives all earlier messages, then EPIPE for ever, and ws_status then returns exactly that status and text (0 and nothing if none was given, EAGAIN before it arrived, EMSGSIZE if it does not fit). "
  "After ws_done sending fails with EPIPE, receiving continues, and a second ws_done fails with EPIPE; texts over the protocol limit are refused with an error. "
  "ws_detach drops outstanding messages and returns the underlying socket positioned behind the peer's close frame.",
  ["inputs", "histories"], "All statuses and texts, pending messages, and orders of done, detach and status by both peers.",
  "tests/ws.c closes twice with fixed arguments.",
  ["ws.c"], [("close frame handling", "ws.c dill_ws_done, dill_ws_detach, dill_ws_status")], ["status and text at the peer; stream position"])
p("M07", "WebSocket opening handshake follows RFC 6455 on both sides",
  "A client and a server attach to each other for every resource and host, which the server receives unchanged; the response key is the RFC 6455 function of the request key; request keys are well-formed and fresh. "
  "The server accepts any valid handshake of another implementation (header fields of up to 255 bytes) and both sides reject with an error, never success, handshakes with a missing or wrong host, version, upgrade, connection, key or accept value, malformed keys or a status other than 101; a failed attach closes the underlying socket and leaves nothing behind.",
  ["inputs", "histories"], "All resources, hosts, header orders, cases and sets, keys, buffer sizes, and mutations of valid handshakes.",
  "tests/ws.c performs one handshake between libdill peers.",
  ["ws.c", "utils.c", "http.c"], [("header validation", "ws.c dill_ws_attach_client_mem, dill_ws_attach_server_mem"), ("base64 and SHA-1", "utils.c")],
  ["handshake text; attach results; keys against a reference implementation"])
p("M08", "SOCKS5 negotiates as RFC 1928/1929 say and never trusts the peer",
  "A SOCKS5 client and proxy of the library reach the same command, address and port and the same authentication verdict for every user name, password, address type and name; the wire bytes follow RFC 1928 and 1929; the client reports failure for every non-success reply. "
  "Malformed or unexpected bytes from the other side, and timeouts, give an error without crash, hang or access outside buffers.",
  ["inputs", "histories"], "All credentials (0 to 255 bytes), address forms, reply codes, and arbitrary or mutated peer bytes.",
  "tests/socks5.c runs a few fixed conversations.",
  ["socks5.c"], [("message parsing with length checks", "socks5.c")], ["wire bytes; results on both sides"])
p("M09", "TLS carries the byte stream intact and reports closure like the plain one",
  "Between a TLS client and server attached over any bytestream, the bytes received are exactly those sent, for all sizes and splits in both directions; what is on the wire differs from the plaintext; tls_done makes the peer get EPIPE after the data, and detach on both sides gives back the underlying socket usable for plain data. "
  "Deadlines are honoured, and garbage or a broken connection instead of TLS gives an error without crash or leak.",
  ["inputs", "histories", "fault_sequences"], "All message sizes and splits, closing orders, and corrupted streams.",
  "tests/tls.c fails at this commit on the installed OpenSSL.",
  ["tls.c"], [("BIO over the underlying socket", "tls.c")], ["bytes at the receiver; errno"])
p("M10", "Protocol layers compose: any stack behaves like its top protocol",
  "Any stack of protocols that the types allow behaves at its top exactly as the top protocol does over a bare connection, in heap and caller-supplied-memory form: same messages, same results, same errors. "
  "hclose on the top closes all layers down to the descriptor; detaching layer by layer in order restores each lower layer at the right position in its stream, with no data of an upper layer lost or left behind.",
  ["programs", "histories"], "All type-correct stacks of PREFIX, SUFFIX, TERM, WebSocket, HTTP and TLS over IPC, TCP and user-defined bytestreams, and all exchanges over them.",
  "Tests use single layers on one transport.",
  ["prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "tls.c", "bsock.c", "msock.c", "handle.c"], [("hown on attach, virtual function tables", "every attach function")],
  ["messages and errors at the top; bytes on the lower layers after detach; open descriptors"])
p("M11", "Errors below a protocol surface unchanged and for good",
  "If the underlying socket of a protocol fails or times out in the middle of a message, the protocol call fails with that error, no partial message is ever delivered as complete, and after a failed send (receive) every later send (receive) fails too. "
  "A deadline passed to a protocol call bounds the whole call, however slowly the peer sends.",
  ["fault_sequences", "histories"], "Every byte position of every exchange as the point of failure (end of stream, reset, timeout, cancellation) for PREFIX, SUFFIX, TERM, HTTP, WebSocket and SOCKS5.",
  "No test injects errors below a protocol.",
  ["prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "socks5.c"], [("inerr/outerr flags", "prefix.c, suffix.c, ws.c")],
  ["results of the failing and all following calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
