BASE="Runtime monitoring of the real code: it holds on the executions observed (counts and samples in the evidence file), which is not a proof. "
NA={
 'C24':"Unpredictability is a statement about what an adversary can compute, not about any observable execution: an oracle over observed key streams can only refute gross failures (constant or repeating keys, which C03 and C16 monitor), never decide it.",
}
CLAIMS={
 'C01':("runtime monitor: offline trace oracle (sent vs delivered sequence) over random message lists, all send/receive interface pairs, scripted transports",BASE+"Trusts the harness's scripted byte stream. All 21x16 send/receive interface pairs in both roles, every size boundary, partial writes, back-pressure and read segmentations."),
 'C02':("runtime monitor: an independent frame parser judges every byte written, for every sending interface, and compares predicted with written sizes",BASE+"Trusts the harness's frame parser."),
 'C03':("runtime monitor: independent parser checks mask bit, key and unmasked payload of every frame; key statistics collected across frames, connections, threads and processes",BASE+"Key freshness is a statistical verdict with a false-alarm probability below 1e-9; unpredictability is not decided (C24)."),
 'C04':("runtime monitor: trace oracle over generated fragmentations with interleaved controls, every receive interface, random and exhaustive byte segmentations",BASE+"Trusts the harness's frame encoder and reference reassembly."),
 'C05':("runtime monitor: reference protocol decoder judges what is delivered and when an error is reported, for generated and mutated frame sequences",BASE+"Trusts the harness's reference decoder; after an offence only delivery is judged, not which error."),
 'C06':("runtime monitor: own UTF-8 validator as oracle over generated valid, invalid and boundary-cut payloads on every receive interface",BASE+"Exhaustive over 1-3 byte strings of the interesting byte classes and random beyond."),
 'C07':("runtime monitor: every cut position (fault injection: EOF and errors) of generated streams, reference decoder as oracle, repeated polling after the end",BASE+"Every byte position of generated streams up to some hundred bytes, sampled positions in longer ones."),
 'C08':("runtime monitor: reference limit arithmetic with one-off boundaries, every way of configuring limits, allocation and input consumption observed",BASE+"Limits up to 32 bits; the fixed per-fragment overhead is a tolerance band in which either outcome is accepted."),
 'C09':("runtime monitor: hostile inputs (random, mutated, structured) with panic, abort, stall, CPU, deadlock and heap-peak monitors (counting allocator, overflow checks on)",BASE+"Memory proportionality is judged with the constants documented in DESIGN.md."),
 'C10':("runtime monitor: injected would-block/timeout/interrupt/pending at random and at every byte boundary, trace oracle on delivery, wake-up monitor on tasks",BASE+"Trusts the harness's executor, which only polls a woken task."),
 'C11':("runtime monitor: differential oracle against an independent frame encoder and parser over generated and enumerated frames and headers",BASE+"Enumerates every flag, opcode, length-form and size boundary; payload contents are sampled."),
 'C12':("runtime monitor: round trips compared with an independent model of each conversion",BASE+"Enumerates all 65536 close codes."),
 'C13':("runtime monitor: generated requests with known verdict, admission and error compared on seven server entry points (in memory and over sockets)",BASE+"Trusts the harness's request generator; heads of 100 or more fields, LF-only line ends and tabs after values are out of scope."),
 'C14':("runtime monitor: the response on the wire parsed independently and compared with the request and the application's choices, seven server entry points",BASE+"Trusts the harness's HTTP head parser and request generator."),
 'C15':("runtime monitor: refused and rejected handshakes with write faults and early data; bytes on the wire and parts handed back compared with what was sent",BASE+"The head bytes of an unparsable request are not demanded back from the asynchronous entry point."),
 'C16':("runtime monitor: the client's request on the wire parsed independently and compared with the configuration; key statistics across connections",BASE+"Custom header values that are not UTF-8 and percent-encoded credentials are out of scope."),
 'C17':("runtime monitor: generated genuine and forged responses with known verdict, blocking and asynchronous client compared, over random segmentations",BASE+"Upgrade lists naming more than websocket may be judged either way, alike by both clients."),
 'C18':("runtime monitor: conservation oracle over every byte behind the handshake, every split position, split/into_stream/into_parts at random points",BASE+"Trusts the scripted transport's accounting of bytes read."),
 'C19':("runtime monitor: differential oracle against independent base64, SHA-1 and list parsers over generated and mutated header values",BASE+"Values are sampled; canonical and non-canonical base64 are both generated by construction."),
 'C20':("runtime monitor: connect, resolver and socket calls of the real client intercepted and recorded; a certificate authority of the harness plays every kind of TLS peer",BASE+"DNS is simulated (getaddrinfo is interposed); OpenSSL and the kernel are trusted."),
 'C21':("runtime monitor: online monitor over servers on real listeners, with good, bad, vanishing and stalled peers in random interleavings; every connection's identity echoed end to end",BASE+"Blocking servers are not expected to go on while a peer stalls."),
 'C22':("runtime monitor: offline oracle over uniquely numbered messages recorded by concurrent threads at both ends of split connections, and over every shutdown call at random points",BASE+"Interleavings are those the kernel's scheduler and injected pauses produce (distinct ones are counted)."),
 'C23':("runtime monitor: HTTP codecs fed generated heads in every segmentation, results compared with the generator's own structure and with the bytes consumed",BASE+"Heads of 100 or more fields are a resource limit and out of scope."),
 'C25':("runtime monitor: differential oracle between the client's configuration, the server's report, the server's choice and the client's report, all pairings in memory and over sockets",BASE+"Trusts the harness's request and response generators; header values are visible ASCII."),
 'C26':("runtime monitor: online oracle over random histories of mixed interfaces; the scripted transport accounts for every byte read and written after each operation",BASE+"Interfaces are exchanged between whole messages only (a message half read through one interface is that interface's)."),
 'C27':("runtime monitor: the operating system's view (getsockopt, fcntl, getsockname, getpeername) of every socket compared with the history of calls, end-of-stream observed by the peer",BASE+"Linux loopback; a call that waits where it must not is found by the deadlock watchdog (nothing else would ever wake it)."),
 'C28':("runtime monitor with fault injection: an error with unique content injected at generated bytes of every operation must be the one reported; offences over sound transports; error values inspected and converted",BASE+"Transport errors are the std::io kinds other than those that mean waiting; after an error the connection is not used further."),
 'C29':("runtime monitor: counting allocator, descriptors and threads compared between repetitions of generated cases of the other monitors, of attempts abandoned half way, long-lived connections and long-lived servers",BASE+"A leak that is not repeated by repeating its case (a bounded cache, one-time initialisation) is not one; OpenSSL's own C memory is not counted."),
 'C30':("runtime monitor: cost of the same traffic at n and 16n (thread CPU clock, counting allocator, counting transport) over generated shapes of traffic, segmentations, waits and interfaces",BASE+"Growth is judged between two sizes with a fourfold tolerance; processor time below 0.4 s is not judged and must exceed the bound in three attempts. Parsing of the handshake is the HTTP library's and not judged."),
}
