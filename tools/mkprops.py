#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}))))
I="include/frnetlib/"
p("C01","Packets give back exactly the typed values that were put in",
 "Whatever sequence of supported values (bool, 8/16/32/64-bit integers, float, double, enums, strings, C strings, string views, pairs, vectors, maps, unordered maps, nested containers of these, raw bytes, iterator ranges and user-defined packable objects) is written into a packet, reading the same types back in the same order yields exactly the same values, bit for bit for floating point, and leaves no bytes over. This holds for values of every magnitude and strings of every content and length, whether they were added one at a time, through the variadic constructor or through the variadic add call, and before as well as after the packet crossed a socket.",
 ["inputs","programs"],"All sequences of (type, value) pairs from the supported type grammar, nesting depth up to 4 in practice, with every way of adding them.",
 "PacketTest samples a dozen fixed value lists, mostly one type at a time; boundary values, nesting, embedded NULs, NaN payloads and mixed sequences are never generated.",
 [I+"Packet.h",I+"NetworkEncoding.h",I+"Packetable.h"],[("typed << and >> operators",I+"Packet.h"),("float/64-bit byte order helpers",I+"NetworkEncoding.h")],["packet extraction results"])
p("C02","Packets have one canonical big-endian, length-prefixed wire format",
 "The bytes a packet puts on the wire are a 4-byte big-endian payload length followed by the values in order: booleans and 8-bit values in one byte, integers and IEEE floats big-endian at their own width, enums as 32-bit big-endian values, strings and C strings as a 32-bit big-endian byte count and the bytes, vectors, maps and iterator ranges as a 32-bit big-endian element count and the elements (pairs as first then second), and raw data unadorned. The size a packet reports is exactly that payload length, and equal value sequences produce equal bytes; an independent decoder of this format recovers the values and packets built by an independent encoder are read correctly.",
 ["inputs","programs"],"All sequences of supported values; both directions against an independent codec.",
 "Round-trip tests use the library on both ends, so a change of byte order, width or prefix applied to both sides stays invisible; no test looks at the bytes.",
 [I+"Packet.h",I+"NetworkEncoding.h"],[("operators append network-order bytes",I+"Packet.h"),("frame header written on send",I+"Packet.h")],["bytes given to the socket's raw send"])
p("C03","Extraction from a packet never reads outside the received bytes",
 "For any packet content and any sequence of typed reads (including containers, raw reads and cursor moves between them), each read either delivers a value decoded entirely from bytes inside the packet, or throws the out-of-range exception; memory use stays proportional to the packet size whatever element counts or lengths the bytes announce. Reading past the end never crashes, never touches memory outside the packet and never hands out made-up data, and booleans come out as a proper true or false for any byte value (non-zero is true).",
 ["inputs","histories"],"All byte strings as packet content and all sequences of extraction and cursor operations with arbitrary arguments.",
 "PacketTest tries a couple of too-short packets; lying length prefixes, overflowing sizes and reads after seeks are not sampled.",
 [I+"Packet.h"],[("bytes-remaining assertion before every read",I+"Packet.h"),("container extraction loops",I+"Packet.h")],["exceptions and values from extraction","AddressSanitizer"])
p("C04","Packet cursor, size and remaining-byte accounting always agree",
 "After any history of adds, reads, absolute and relative seeks, clears, reservations and copies, the reported size equals the bytes added since the last clear, the cursor equals the position implied by the history clamped to [0, size] (seeking before the start goes to the start, seeking past the end goes to the end), and the bytes remaining equal size minus cursor. Clearing leaves an empty packet at position 0, reserving or adding never moves the cursor or changes existing content, and a copy or moved-to packet behaves like the original.",
 ["histories","inputs"],"All operation histories with arbitrary arguments, including extreme offsets.",
 "PacketTest exercises single seeks on one fixed packet; histories that mix operations and extreme offsets are not covered.",
 [I+"Packet.h"],[("set_cursor/seek_cursor/get_cursor/size/clear",I+"Packet.h")],["cursor, size and remaining getters"])
p("C05","Framed packets arrive whole, in order and unchanged over any segmentation",
 "If one side sends packets M1..Mn over a connected socket, the other side's successive receives deliver exactly M1..Mn (same bytes, same sizes, readable from the start), however the stream is split into segments, however many would-block results interleave on either side, and whether the receiving packet object is fresh or was used before. A non-blocking receive that finds no data reports would-block (or timeout) and consumes nothing; sending does not alter the packet, so it can be sent again with the same result.",
 ["schedules","inputs","histories"],"All message lists, all splits of the byte stream into reads and writes, all interleavings of would-block results, fresh or reused receiving objects.",
 "Tests send one packet over loopback, which always arrives in one segment; partial reads, partial writes and reuse are never scheduled.",
 [I+"Packet.h","src/Socket.cpp",I+"Socket.h"],[("length header and receive loop",I+"Packet.h"),("receive_all accumulates",  "src/Socket.cpp")],["received packets","bytes consumed from the stream"])
p("C06","WebSocket frames are RFC 6455 on the wire and survive any segmentation",
 "A frame sent by either role appears on the wire as RFC 6455 prescribes: final bit and opcode as set, minimal payload length form (7-bit up to 125, 16-bit up to 65535, 64-bit above) in network order, masked with a 4-byte key if and only if the sender is the client. Any such frame stream, split into arbitrary segments with would-block results in between, is received by the opposite role as the same sequence of (opcode, final flag, payload), and a frame violating the masking rule for its direction is refused with an error. Sending leaves the frame object unchanged, so sending it again delivers the same payload.",
 ["inputs","schedules"],"All payloads and lengths (around every length-form boundary), opcodes, final flags, roles and segmentations; repeated sends of one object.",
 "There are no WebSocket tests at all in the suite.",
 ["src/WebFrame.cpp",I+"WebFrame.h"],[("frame encoder","src/WebFrame.cpp"),("frame decoder with unmasking","src/WebFrame.cpp")],["bytes given to raw send","received frame fields"])
p("C07","Receive results never lie about interrupted or partial messages",
 "For packets, WebSocket frames, HTTP messages and exact-length reads alike: success is reported only if the complete message arrived; would-block or timeout is reported only if no byte of the message was consumed; a failure before the first byte is reported as it occurred, and any failure after the first byte of a message (peer gone, error, timeout) is reported as disconnected or as the error it was, never as a retryable timeout or would-block. Would-block results after the first byte are simply retried and never lose, duplicate or reorder bytes.",
 ["fault_sequences","schedules"],"Every fault kind injected at every byte position of the stream, under all segmentations and message shapes.",
 "No test injects a fault in the middle of a message; loopback tests only see complete messages.",
 ["src/Socket.cpp",I+"Packet.h","src/WebFrame.cpp","src/Http.cpp"],[("receive_all status translation","src/Socket.cpp"),("timeout to disconnected mapping",I+"Packet.h")],["returned status","bytes consumed"])
p("C08","Configured and built-in receive limits are enforced exactly",
 "With a maximum receive size L set, packets and WebSocket frames whose payload is at most L are delivered and larger ones are refused with the size-exceeded status before their payload is read or buffered; with no limit (0) any size is delivered. HTTP messages are refused with header-too-big when the header exceeds the configured header limit and with body-too-big when the body received exceeds the configured body limit, are accepted at exactly the limit, and the verdict does not depend on how the bytes were segmented.",
 ["inputs","configurations","schedules"],"All limits, all sizes around and far beyond the limit (including the largest announceable ones), all segmentations.",
 "One or two tests check a single over-limit header; exact boundaries, announced-but-unsent sizes and segmentation are not covered.",
 [I+"Packet.h","src/WebFrame.cpp","src/HttpRequest.cpp","src/HttpResponse.cpp"],[("max receive size comparison",I+"Packet.h"),("header/body limit checks","src/HttpRequest.cpp")],["returned status","bytes consumed from the stream","heap growth"])
p("C09","Hostile byte streams cannot crash or wedge the message receivers",
 "Whatever bytes a peer sends, receiving packets, WebSocket frames and HTTP messages (with a receive size limit set for the first two) terminates with a status as soon as the stream ends, without crashing, throwing, corrupting memory, or allocating beyond the limits in force; a message reported as successfully received is exactly the one encoded by the bytes consumed, per an independent decoder.",
 ["inputs","schedules"],"All byte strings (random, mutated-valid and coverage-guided), under all segmentations, for every receiver.",
 "Tests feed a handful of well-formed inputs; nothing explores malformed or adversarial streams.",
 [I+"Packet.h","src/WebFrame.cpp","src/HttpRequest.cpp","src/HttpResponse.cpp","src/Http.cpp"],[("bounded reads and limits",I+"Packet.h"),("exception containment in header parsing","src/HttpRequest.cpp")],["status","sanitizers","decoded message"])
p("C10","A constructed HTTP request parses back to the same request",
 "Building a request from any method, path, version, GET variables, headers, and either POST variables (with the POST method) or a body, and parsing the constructed text (whole, in pieces, or through a socket) succeeds and yields the same method, path, version, GET variables, headers, POST variables and body; POST variables survive in every message that carries them, however it is segmented. The text itself is well formed: a request line, header lines ended by CRLF including connection and host (the given host unless one was set), an empty line, and a content length equal to the bytes that follow whenever any follow.",
 ["inputs","schedules"],"All field combinations over the characters HTTP allows in each place (no reserved separators inside names and values), all segmentations.",
 "HttpRequestTest constructs one or two fixed requests and compares substrings; combinations and segmented delivery are not covered.",
 ["src/HttpRequest.cpp","src/Http.cpp",I+"HttpRequest.h",I+"Http.h"],[("construct","src/HttpRequest.cpp"),("parse","src/HttpRequest.cpp")],["constructed text","parsed fields"])
p("C11","A constructed HTTP response parses back to the same response",
 "Building a response from any status code, version, headers and body and parsing the constructed text (whole, in pieces, or through a socket) succeeds and yields the same status, version, headers and body. The text itself is well formed: a status line, CRLF-terminated header lines including connection and content type (defaults added only when absent), an empty line, and a content length equal to the body length when there is a body.",
 ["inputs","schedules"],"All status codes, versions, header sets and bodies (arbitrary bytes), all segmentations.",
 "HttpResponseTest constructs one fixed response; arbitrary bodies, headers and segmented delivery are not covered.",
 ["src/HttpResponse.cpp","src/Http.cpp",I+"HttpResponse.h"],[("construct","src/HttpResponse.cpp"),("parse","src/HttpResponse.cpp")],["constructed text","parsed fields"])
p("C12","HTTP parsing does not depend on how the bytes were split",
 "For any byte string, feeding it to a request or response parser in one piece or in any sequence of pieces gives the same final verdict and, on success, the same method, path, version, status, variables, headers and body; every proper prefix fed before the message is complete asks for more data or reports the error that the whole input leads to. Bytes beyond the end of a complete message that announces its length (by content length or chunked coding) never change the fields of that message.",
 ["schedules","inputs"],"All byte strings (valid, mutated, garbage) times all segmentations, including splits inside line terminators and at the header limit.",
 "Two tests split one fixed message at one place.",
 ["src/HttpRequest.cpp","src/HttpResponse.cpp"],[("incremental header search and body accumulation","src/HttpRequest.cpp"),("incremental chunk decoding","src/HttpResponse.cpp")],["status sequence","parsed fields"])
p("C13","Chunked response bodies are decoded exactly",
 "A response marked as using chunked transfer encoding (in any letter case, alone or among other codings) is complete exactly when its zero-length chunk has fully arrived and its body is then the concatenation of the chunk payloads, for any number and size of chunks, payload bytes that look like chunk syntax, hexadecimal sizes in either case, and any segmentation. Until then more data is requested; a malformed or absurd chunk size is reported as an error status, never as an exception, a hang or invented data.",
 ["inputs","schedules","fault_sequences"],"All chunk lists, encodings, segmentations, and corruptions of chunk headers.",
 "HttpResponseTest decodes two small fixed chunked messages.",
 ["src/HttpResponse.cpp"],[("chunk loop","src/HttpResponse.cpp"),("transfer-encoding header parsing","src/Http.cpp")],["status","body"])
p("C14","HTTP messages from other implementations are understood",
 "A well-formed request or response written by any conforming peer is parsed to its intended content: the right method, path and query variables, the right version (1.0 or 1.1) and status code, every header retrievable under any letter case of its name with its exact value (first occurrence wins, empty values included), POST form variables with any valid content length, and exactly the announced body. CRLF and bare LF line ends, optional blanks around header values (which may contain tabs and non-ASCII bytes), missing reason phrases, valueless query flags and any header order are accepted; variable and header lookup is case-insensitive and absent names are reported absent.",
 ["inputs"],"All messages derived from an independent generator of the HTTP/1.x grammar as the library documents it.",
 "Tests parse a handful of captured messages with typical headers only.",
 ["src/HttpRequest.cpp","src/HttpResponse.cpp","src/Http.cpp"],[("request line, header line and argument list parsing","src/Http.cpp")],["parsed fields"])
p("C15","Malformed HTTP input is refused, and refused as early as it is recognisable",
 "Input that does not begin with (a prefix of) a known method is refused by the request parser with a parse error at the first deviating byte, and input that does not begin with HTTP is refused by the response parser once four bytes arrived; prefixes of valid starts ask for more data. Messages whose header is complete but whose request line, status code or content length is missing or unusable are refused with a parse error; no input makes a parser throw, crash or report success for an incomplete message.",
 ["inputs","schedules"],"All byte strings near and far from valid starts, structurally broken headers, numeric fields out of range, under all segmentations.",
 "A few tests check one bad method and one bad header.",
 ["src/HttpRequest.cpp","src/HttpResponse.cpp",I+"Http.h"],[("method prefix classification",I+"Http.h"),("exception containment in parse_header","src/HttpRequest.cpp")],["status"])
p("C16","URL encoding is reversible and decoding is total",
 "Decoding the encoding of any byte string returns that byte string, and the encoding consists only of unreserved characters, plus signs for spaces, and percent escapes with two upper-case hex digits. Decoding accepts escapes with upper- or lower-case hex digits, turns plus into space, leaves every other byte alone, and passes malformed or truncated escapes through literally without reading outside the input.",
 ["inputs"],"All byte strings for encoding; all strings for decoding.",
 "HttpTest encodes and decodes two fixed strings.",
 ["src/Http.cpp"],[("url_encode/url_decode","src/Http.cpp")],["returned strings"])
p("C17","URLs are split into their components correctly and recompose",
 "Parsing scheme://host:port/path?query#fragment with any subset of the optional parts yields exactly those parts (scheme case-insensitively, unknown schemes as unknown, path including its leading slash), with the default port filled in for http 80, https 443, ftp 21, sftp 22 and irc 6697 when none is given; delimiters appearing inside later components do not disturb earlier ones. The result depends only on the string parsed, not on what the object held before; the composed URL and URI reproduce the components and, when there is a host, parse back to an equal URL, and no string makes parsing throw or read out of bounds.",
 ["inputs","histories"],"All component combinations from an independent generator, all strings for totality, reuse of one object for several parses.",
 "URLTest checks about a dozen fixed URLs with fresh objects.",
 ["src/URL.cpp",I+"URL.h"],[("parse","src/URL.cpp"),("scheme table","src/URL.cpp"),("get_uri/get_url",I+"URL.h")],["component getters","composed URL"])
p("C18","MIME types depend only on the file extension and unknown ones get the default",
 "The MIME type reported for a file name, path, or bare extension is the one registered for the text after its last dot, no matter what precedes it, and it is application/octet-stream for every extension that is not registered; every registered extension keeps its type. Lookups never change later answers.",
 ["inputs","histories"],"All registered extensions times all prefixes, and arbitrary unregistered strings, in any order of lookups.",
 "HttpTest looks up a couple of names out of roughly 600 entries.",
 ["src/Http.cpp"],[("get_mimetype table","src/Http.cpp")],["returned type"])
p("C19","Base64 encoding follows RFC 4648 for every input",
 "For every byte string, including the empty one, one- and two-byte ones, and any content, the Base64 encoding is the RFC 4648 standard-alphabet encoding with padding, so that any conforming decoder returns the input.",
 ["inputs"],"All byte strings of every length.",
 "No test covers Base64.",
 ["src/Base64.cpp",I+"Base64.h"],[("encode","src/Base64.cpp")],["returned string"])
p("C20","SHA-1 digests match FIPS 180 for every input",
 "For every byte string of every length, the digest is the 20 raw bytes FIPS 180 defines for SHA-1, independent of earlier or concurrent digests.",
 ["inputs"],"All byte strings, with lengths around every padding and block boundary and long inputs.",
 "No test covers SHA-1.",
 ["src/Sha1.cpp",I+"Sha1.h"],[("update/final/transform","src/Sha1.cpp")],["returned digest"])
p("C21","The WebSocket handshake admits exactly conforming peers and loses no data",
 "A client connection succeeds if and only if the server answers 101 with the accept value RFC 6455 derives from the key that client sent (a 16-byte base64 value); otherwise it reports failure and ends up disconnected. The client's request is a GET for the requested path carrying the upgrade, version 13, host and any subprotocols; a server accepts exactly GET requests upgrading to websocket, answers 101 with the right accept value and refuses others. Bytes following the handshake are delivered as frames, in both roles and under any segmentation, and disconnecting sends one close frame masked according to the role before closing.",
 ["inputs","schedules","histories"],"All paths, subprotocol lists, server answers (right, wrong, missing, truncated), client requests, segmentations, and data pipelined behind the handshake.",
 "There are no WebSocket handshake tests.",
 [I+"WebSocket.h","src/WebFrame.cpp","src/Http.cpp"],[("client handshake",I+"WebSocket.h"),("server handshake on accept",I+"WebSocket.h")],["bytes on the wire","returned status","frames received after the handshake"])
p("C22","Raw socket I/O transfers exactly the requested bytes whatever the kernel does",
 "Under any sequence of short transfers, interruptions by signals, would-block results and errors from the operating system, a raw send reports success only when every requested byte was handed to the system once and in order, and otherwise reports exactly how many were so that the caller can resume without loss or duplication; a raw receive hands over exactly the bytes the system delivered. Interruptions are retried invisibly, would-block is reported as timeout on blocking sockets and would-block on non-blocking ones, end of stream as disconnected, and other errors as send or receive errors.",
 ["fault_sequences","schedules"],"All fault sequences (short counts, EINTR, EAGAIN, ECONNRESET, EPIPE, end of stream) at the system-call boundary, all sizes, both blocking modes.",
 "Loopback tests never see short transfers, interruptions or errors.",
 ["src/TcpSocket.cpp"],[("send_raw/receive_raw loops","src/TcpSocket.cpp")],["status, sent/received counts","bytes crossing the system-call boundary"])
p("C23","Sockets and listeners own their descriptors: none leaked, none closed twice",
 "After any history of connects, listens, accepts, disconnects, reconnections, moves and destructions, including any system call failing along the way, every descriptor the library opened is closed exactly once when its owner closes, reconnects or is destroyed, and no other descriptor of the process is ever closed. A socket or listener says it is connected exactly while it holds a live descriptor: a failed connect or listen leaves it unconnected with nothing open, and a closed one reports unconnected.",
 ["histories","fault_sequences"],"All operation histories times a failure injected at any system call.",
 "Tests only connect successfully and never count descriptors or inject failures.",
 ["src/TcpSocket.cpp","src/TcpListener.cpp",I+"TcpListener.h","src/SSLSocket.cpp","src/SSLListener.cpp"],[("close_socket and destructors","src/TcpSocket.cpp"),("listen candidate loop","src/TcpListener.cpp")],["descriptor table via wrapped system calls","connected state"])
p("C24","Blocking mode, timeouts and options always match the operating system's state",
 "After any history of connecting, accepting, reconnecting, adopting a descriptor, switching blocking mode and setting receive or send timeouts in any order (before or after connecting), the reported blocking mode equals the descriptor's real mode, new connections start out blocking, the reported timeouts equal the values last set, and the descriptor's real timeouts equal them to clock granularity (zero meaning none), with send coalescing disabled; this holds for plain and TLS sockets. An empty non-blocking socket's receive returns would-block at once, and an empty blocking socket with a timeout returns timeout after about that time, not before.",
 ["histories","configurations"],"All setter/connect/accept orderings and timeout values up to the 32-bit maximum.",
 "SocketTest sets one value; nothing compares with the descriptor or reorders the calls.",
 ["src/TcpSocket.cpp","src/SSLSocket.cpp","src/Socket.cpp",I+"NetworkEncoding.h",I+"Socket.h"],[("reconfigure_socket applies options","src/TcpSocket.cpp"),("reconfigure_socket of TLS sockets","src/SSLSocket.cpp"),("set_unix_socket_blocking toggles",I+"NetworkEncoding.h")],["fcntl/getsockopt readings","returned statuses"])
p("C25","The selector reports exactly the ready members with their own user data",
 "After any history of adding, removing, sending, reading, disconnecting, re-adding and destroying sockets and listeners, a wait returns only current members that are readable, hung up or have a pending connection, never a removed or idle one, each at most once and each with the user data it was added with, and it returns every ready member (up to 100 at once); with none ready it returns an empty list after the timeout. Removing returns the member's user data (also when it has been disconnected meanwhile) or null for non-members, adding a disconnected or duplicate socket is refused without effect, and members are kept alive while registered.",
 ["histories","schedules"],"All operation histories over a population of sockets and listeners, including descriptor reuse.",
 "There are no selector tests.",
 ["src/SocketSelector.cpp",I+"SocketSelector.h"],[("epoll registration keyed by socket identity","src/SocketSelector.cpp")],["wait results","remove results"])
p("C26","Concurrent clients and servers over real connections exchange data intact",
 "With any number of concurrent connections, message sizes, message kinds (packets, HTTP, WebSocket frames, raw bytes) and directions over IPv4 or IPv6 loopback, every connection's peers receive exactly what was sent to them, in order, with the accepted socket reporting the client's address; nothing crosses between connections. A listener keeps accepting after clients vanish at any moment, and closing one side is seen by the other as disconnected after all earlier data.",
 ["schedules","histories"],"All workloads of concurrent connections and message kinds and sizes, under real kernel scheduling.",
 "Tests use a single client and a single message per connection.",
 ["src/TcpSocket.cpp","src/TcpListener.cpp",I+"Packet.h","src/WebFrame.cpp","src/Http.cpp",I+"WebSocket.h"],[("accept hands over descriptors","src/TcpListener.cpp"),("send/receive loops","src/TcpSocket.cpp")],["received messages","remote address"])
p("C27","Independent objects can be used from different threads without interference",
 "Threads that each work on their own sockets, packets, frames, HTTP messages, URLs and encoders, with no sharing at the API level, get the same results as if they ran alone, with no data race inside the library.",
 ["schedules"],"All combinations of operations run concurrently on distinct objects.",
 "Tests are single-threaded or use one helper thread, without a race detector.",
 ["src/WebFrame.cpp","src/Http.cpp","src/URL.cpp","src/Sha1.cpp","src/SocketSelector.cpp"],[("shared statics (mask key, tables)","src/WebFrame.cpp")],["ThreadSanitizer","results versus sequential run"])
p("C28","TLS sockets behave like plain sockets: same data, same blocking and timeouts",
 "Any sequence of messages (packets, HTTP, raw bytes of any size) sent over a TLS connection arrives exactly once, in order and unchanged, in both directions and also when either side is non-blocking and the peer is slow, so that sends are resumed after would-block. Switching a TLS socket to non-blocking really makes it so: a receive with nothing pending returns would-block at once, and a blocking one with a receive timeout returns timeout after about that time; the reported mode matches the descriptor's real mode, and a peer that has closed or reset the connection, or sends something that is not TLS, is reported as disconnected or as a TLS error, after which sending does not go on succeeding.",
 ["histories","schedules","configurations"],"All message sequences, sizes, blocking modes, timeouts and peer speeds over real TLS connections.",
 "There are no TLS tests in the suite.",
 ["src/SSLSocket.cpp","src/SSLListener.cpp",I+"SSLSocket.h"],[("send_raw/receive_raw over TLS records","src/SSLSocket.cpp"),("set_blocking","src/SSLSocket.cpp")],["received bytes","status","descriptor flags"])
p("C29","TLS clients accept exactly the servers they should trust",
 "With certificate verification on (the default), a TLS connect succeeds only if the server's certificate chains to a loaded authority, is within its validity period and names the host connected to; otherwise it fails, and it also fails against peers that do not speak TLS or cannot be reached. With verification turned off it succeeds for any certificate; after a failed connect the socket reports itself unconnected with nothing left open, and can be used for another attempt.",
 ["inputs","configurations","histories"],"All combinations of authority loaded, certificate name, validity, host used, verification setting and order of attempts.",
 "There are no TLS tests in the suite.",
 ["src/SSLSocket.cpp","src/SSLListener.cpp",I+"SSLContext.h"],[("auth mode, hostname and verify result","src/SSLSocket.cpp")],["connect status","connected state"])
p("C30","Connecting tries every candidate address and reports the true outcome",
 "Connecting resolves the name for the chosen IP version and tries each resulting address in order until one accepts; it reports success only when a connection is established (and then the remote address is the address and port asked for), a lookup failure only when resolution fails, and no-route when every candidate refuses, fails or exceeds the timeout given in seconds (20 by default). Listening likewise succeeds if and only if some candidate for the port and IP version can be bound and listened on, and then connections to that port are accepted; otherwise it reports a lookup, bind or listen failure. Signal interruptions and transient failure of one candidate do not change the outcome.",
 ["fault_sequences","configurations","histories"],"All candidate lists, per-candidate outcomes (refused, immediate, delayed, timed out, error at any system call), IP versions and timeouts.",
 "Tests connect once to a listening loopback port; multi-address names and failures are not sampled.",
 ["src/TcpSocket.cpp","src/TcpListener.cpp","src/Socket.cpp"],[("candidate loop with timed connect","src/TcpSocket.cpp"),("bind candidate loop","src/TcpListener.cpp")],["status","sequence of system calls","remote address"])
p("C31","Protocol names and symbolic values convert consistently",
 "Every HTTP method, transfer coding and URL scheme has one name, and converting value to name and back gives the same value; method recognition of a string is exact: the method when the string starts with its name, partial when the string is a proper prefix of some method name, unknown otherwise. Transfer codings and schemes are recognised in any letter case and anything unrecognised maps to none or unknown; every HTTP status enumerator stands for its registered code when sent and when received; every socket status value has a non-empty description that distinguishes it from the others.",
 ["inputs"],"All strings near and far from the known names, in all letter cases, and all enumerator values.",
 "Tests check a few names; the prefix classification has three examples.",
 [I+"Http.h","src/URL.cpp","src/Socket.cpp"],[("string_to_request_type",I+"Http.h"),("scheme table","src/URL.cpp"),("status_to_string","src/Socket.cpp")],["returned values"])
p("C32","Shutting down wakes blocked operations and ends the stream cleanly",
 "Shutting down a socket or listener, at any moment and from any thread, makes every receive, send or accept blocked on it return promptly with a failure (never success for an incomplete message, never a would-block or timeout), and makes later ones fail at once instead of blocking. Everything sent before is still delivered to the peer, which then sees the end of the stream; what had already arrived can still be received on a plain socket. The object keeps its descriptor and counts as connected until it is closed, can be connected or told to listen again afterwards, and other connections, including ones accepted from that listener earlier, are unaffected. This holds for plain and TLS sockets and listeners alike; shutting down an unconnected one does nothing.",
 ["schedules","histories","inputs"],"All moments of the shutdown relative to a blocked operation, all operations and message kinds, all amounts already sent and arrived, plain and TLS, repeated shutdowns and later reuse.",
 "No test calls shutdown() on a socket or listener, and the moment at which it hits a blocked operation cannot be enumerated by examples.",
 ["src/Socket.cpp","src/TcpListener.cpp","src/SSLListener.cpp","src/TcpSocket.cpp","src/SSLSocket.cpp",I+"Socket.h",I+"Listener.h"],[("Socket::shutdown, both directions","src/Socket.cpp"),("TcpListener::shutdown","src/TcpListener.cpp"),("SSLListener::shutdown","src/SSLListener.cpp"),("receive and send loops end on a closed stream","src/TcpSocket.cpp")],["status of the blocked call","what the peer receives","descriptor and connected state"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
