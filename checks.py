# The checks: how each property's harness is built and described.
SAN = " Runs under AddressSanitizer and selected UndefinedBehaviorSanitizer checks."
def rnd(x): return "Seeded random search with shrinking; holds on every generated case, not proven. " + x + SAN
WRAP = ("readv writev ppoll pselect epoll_create epoll_pwait socket connect close bind listen accept accept4 setsockopt getsockopt select poll send sendto sendmsg write recv recvfrom recvmsg read "
        "getaddrinfo freeaddrinfo getnameinfo getpeername getsockname shutdown epoll_create1 epoll_ctl epoll_wait fcntl fcntl64 ioctl "
        "_ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv clock_gettime gettimeofday time").split()
CHECKS = {
    "C01": dict(src="c01.cpp", technique="property-based round trip over a generated type grammar, with shrinking", note=rnd("Types are drawn from a fixed template set (about 60 instantiations, nesting up to 3).")),
    "C02": dict(src="c02.cpp", technique="property-based differential test against an independent codec, both directions", note=rnd("Trusts the reference codec written from the property text.")),
    "C03": dict(src="c03.cpp", fuzz_runs=dict(quick=100000, thorough=3000000), technique="property-based stateful test against an independent decoder under AddressSanitizer", note=rnd("Memory use is measured through the sanitizer's allocation hooks.")),
    "C04": dict(src="c04.cpp", technique="model-based stateful property test", note=rnd("The model is a byte string and a position.")),
    "C05": dict(src="c05.cpp", technique="property-based test over generated segmentations of a scripted socket, with a framing oracle", note=rnd("Packets up to 300 kB, rarely 16 MiB; the scripted socket stands in for the kernel (C26 uses real connections).")),
    "C06": dict(src="c06.cpp", fuzz_runs=dict(quick=20000, thorough=500000), technique="property-based differential test against an independent RFC 6455 codec over generated segmentations", note=rnd("Payloads up to 300 kB, rarely 16 MiB; reserved opcodes and extensions are outside the domain.")),
    "C07": dict(src="c07.cpp", technique="property-based fault injection on a scripted socket with predicted statuses", note=rnd("HTTP messages announce their length, are chunked, or have no body.")),
    "C08": dict(src="c08.cpp", defs=["-DMAX_HTTP_HEADER_SIZE=600", "-DMAX_HTTP_BODY_SIZE=2000"], technique="property-based boundary testing around the limits with verdict, byte and allocation oracles", note=rnd("The HTTP limits are compile-time macros; the library is compiled with small ones. The header's size is counted without the empty line that ends it.")),
    "C09": dict(src="c09.cpp", fuzz_runs=dict(quick=60000, thorough=2000000), defs=["-DMAX_HTTP_HEADER_SIZE=600", "-DMAX_HTTP_BODY_SIZE=2000"], technique="structure-aware and coverage-guided fuzzing with independent decoders as oracle", note=rnd("The library is compiled with small HTTP limits; HTTP bodies are compared when their length is announced by a plain number or chunked coding.")),
    "C10": dict(src="c10.cpp", technique="property-based construct/parse round trip with a strict reader of the text", note=rnd("Names, values and paths avoid the reserved separators, as the API documents no escaping; POST variables are exercised with the POST method.")),
    "C11": dict(src="c11.cpp", technique="property-based construct/parse round trip with a strict reader of the text", note=rnd("")),
    "C12": dict(src="c12.cpp", fuzz_runs=dict(quick=60000, thorough=2000000), defs=["-DMAX_HTTP_HEADER_SIZE=600", "-DMAX_HTTP_BODY_SIZE=2000"], technique="metamorphic property test (whole versus generated segmentations) plus coverage-guided fuzzing", note=rnd("The library is compiled with small limits so that limit crossings are common. Messages that announce no length end with their header; their body is not compared.")),
    "C13": dict(src="c13.cpp", fuzz_runs=dict(quick=60000, thorough=2000000), technique="property-based decoding test against generated chunk lists, with malformed and truncated variants", note=rnd("Trailers are outside the domain.")),
    "C14": dict(src="c14.cpp", fuzz_runs=dict(quick=60000, thorough=2000000), technique="property-based test with an independent HTTP message grammar as generator and oracle", note=rnd("Header values contain no control characters but tabs; requests use origin-form targets.")),
    "C15": dict(src="c15.cpp", fuzz_runs=dict(quick=60000, thorough=2000000), technique="property-based negative testing with predicted verdicts, plus coverage-guided fuzzing for totality", note=rnd("")),
    "C16": dict(src="c16.cpp", fuzz_runs=dict(quick=60000, thorough=3000000), technique="property-based round trip and differential test against a reference decoder", note=rnd("")),
    "C17": dict(src="c17.cpp", fuzz_runs=dict(quick=60000, thorough=3000000), technique="property-based construct-then-parse test from independently generated components, plus arbitrary strings", note=rnd("IPv6 literals, user info and empty ports are outside the domain.")),
    "C18": dict(src="c18.cpp", technique="property-based table differential test", note=rnd("The expected table is a copy of the registered one at the pinned commit.")),
    "C19": dict(src="c19.cpp", technique="property-based differential test against RFC 4648 reference encoder and decoder", note=rnd("")),
    "C20": dict(src="c20.cpp", technique="property-based differential test against two SHA-1 implementations", note=rnd("")),
    "C21": dict(src="c21.cpp", fuzz_runs=dict(quick=40000, thorough=1500000), technique="property-based protocol testing against scripted conforming and deviating peers, with an independent handshake oracle", note=rnd("The transport is a scripted socket; answers carry no body.")),
    "C22": dict(src="c22.cpp", extra=["sys.cpp"], wrap=WRAP, technique="property-based system call fault injection (link-time interposition) against a predicted outcome", note=rnd("TcpSocket only; TLS sockets are covered by C28. Buffers are non-empty.")),
    "C23": dict(src="c23.cpp", extra=["sys.cpp"], wrap=WRAP, technique="model-based stateful property test with system call fault injection over real loopback sockets", note=rnd("TCP sockets and listeners; TLS ones are covered by C28 and C29. One injected failure per operation; close itself does not fail.")),
    "C24": dict(static_tls=True, src="c24.cpp", extra=["sys.cpp"], wrap=WRAP, technique="model-based stateful property test over real loopback sockets, with system call fault injection", note=rnd("TLS sockets get adopted descriptors without a handshake; C28 looks at those of real TLS connections. Real waiting is limited to timeouts of 1-60 ms.")),
    "C25": dict(src="c25.cpp", extra=["sys.cpp"], wrap=WRAP, technique="model-based stateful property test over real sockets, with a readiness model as oracle", note=rnd("TLS members have no TLS session: sockets adopt a descriptor, listeners do not handshake.")),
    "C26": dict(src="c26.cpp", extra=["sys.cpp"], wrap=WRAP, technique="property-based end-to-end test over real loopback connections with concurrent generated scripts", note=rnd("Schedules are the real kernel's, with random pauses, not enumerated. HTTP messages are answered before the next one in the same direction.")),
    "C27": dict(src="c27.cpp", extra=["sys.cpp"], wrap=WRAP, kind="tsan", technique="property-based concurrent workloads under ThreadSanitizer, compared with sequential runs", note="Seeded random search; holds on every generated case, not proven. Schedules are the real scheduler's; ThreadSanitizer's happens-before analysis flags a race of instrumented code whichever way it went. mbedtls is not instrumented."),
    "C28": dict(static_tls=True, src="c28.cpp", extra=["sys.cpp"], wrap=WRAP, technique="property-based end-to-end test over real TLS connections with generated scripts, modes and probes", note=rnd("Schedules and kernel buffering are real, not enumerated. mbedtls itself is trusted.")),
    "C29": dict(static_tls=True, src="c29.cpp", extra=["sys.cpp"], wrap=WRAP, technique="property-based test over real TLS connections with generated certificate chains, peers and histories, against a trust oracle", note=rnd("Certificate checking itself is mbedtls's; root certificates are never expired, no revocation, no IP address alternative names.")),
    "C30": dict(src="c30.cpp", extra=["sys.cpp"], wrap=WRAP, technique="property-based test against a scripted resolver and kernel on a virtual clock (link-time interposition), with a predicted outcome", note=rnd("The kernel is a model; C23 and C26 use the real one. Delays within 0.5 s of the timeout are not generated.")),
    "C31": dict(src="c31.cpp", technique="property-based name/value consistency test against a reference table", note=rnd("")),
    "C32": dict(src="c32.cpp", extra=["sys.cpp"], wrap=WRAP, technique="property-based test of generated shutdown moments against operations blocked on real loopback TCP and TLS connections", note=rnd("Schedules are the real kernel's, with generated delays, not enumerated. Eight seconds without returning count as stuck. A TLS accept in the middle of a handshake is left alone.")),
}
NOT_APPLICABLE = {}
