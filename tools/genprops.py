import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
WS='websocket-base/src/'
p('C01','Messages arrive intact, in order, exactly once',
 "Every sequence of text, binary, ping, pong and close messages that one endpoint sends successfully is delivered by its peer as the same sequence: same kinds, same payload bytes, same close code and reason, with nothing lost, duplicated, reordered or merged. This holds for every pairing of the blocking and asynchronous send and receive interfaces in both roles, whether messages are borrowed or owned, for every payload size within the limits, and however the transport splits reads, accepts only part of a write, or pushes back.",
 ['inputs','schedules','histories'],"all message sequences x sender/receiver interface pairs x roles x transport segmentations, short writes and back-pressure patterns",
 "The unit tests send a handful of fixed messages through whole-buffer cursors; sizes around the 125/65535 boundaries, split reads, partial writes and back-pressure are never combined.",
 [WS+'codec/ws.rs',WS+'dataframe.rs',WS+'message.rs','src/receiver.rs','src/sender.rs','src/client/sync.rs','src/client/async.rs'],
 [('frame encode','websocket-base/src/ws/dataframe.rs write_to'),('frame decode','websocket-base/src/dataframe.rs, codec/ws.rs decode'),('message assembly','src/receiver.rs recv_message_dataframes; websocket-base/src/message.rs from_dataframes')],
 ['messages handed to the sender','bytes on the scripted transport','messages returned by the receiver'])
p('C02','Sent frames are well formed and sized as predicted',
 "Each message sent appears on the wire as exactly one final frame with zero reserved bits, the opcode of its kind, the shortest possible length encoding and, after unmasking, exactly the message's payload; a low-level frame appears with exactly the final flag, reserved bits and opcode it was given. The size an endpoint predicts for a message or frame equals the number of bytes it writes, and a control message or frame with more than 125 payload bytes is refused with an error without writing anything.",
 ['inputs'],"all messages and frames of every kind and size, both roles, every send interface",
 "Tests check sizes of about nine fixed messages per type against the serializer itself and never parse the output with an independent strict parser.",
 [WS+'ws/dataframe.rs',WS+'ws/util/header.rs',WS+'message.rs',WS+'codec/ws.rs','src/sender.rs'],
 [('header writer','websocket-base/src/ws/util/header.rs write_header'),('size prediction','websocket-base/src/ws/dataframe.rs frame_size; message.rs size'),('control length check','websocket-base/src/ws/util/header.rs write_header')],
 ['bytes written to the transport, parsed by an independent strict parser'])
p('C03','Client frames are masked with fresh keys, server frames never',
 "Every frame an endpoint acting as a client sends, through any interface, carries a masking key and its payload is the original XORed with that key at the right offset even when the transport accepts writes piecemeal; no frame sent in the server role is masked. Each frame gets a newly generated key: keys do not repeat across frames, connections, threads or processes more often than random 32-bit values would, and every key bit varies.",
 ['inputs','histories','schedules'],"all frames of all connections, threads and processes, and all partial-write patterns of the sink under the masking writer",
 "Tests mask one fixed buffer with one fixed key; key freshness is a property of the whole history of frames across connections and processes.",
 [WS+'ws/util/mask.rs',WS+'ws/dataframe.rs','src/sender.rs','src/client/builder.rs','src/server/upgrade/sync.rs',WS+'codec/ws.rs'],
 [('key generation','websocket-base/src/ws/util/mask.rs gen_mask'),('masking writer','websocket-base/src/ws/util/mask.rs Masker'),('role to mask flag','src/client/builder.rs connect_on; src/server/upgrade/sync.rs; codec/ws.rs Context')],
 ['captured wire bytes: mask bit, key, unmasked payload; key log over frames/connections/threads/processes'])
p('C04','Fragmented messages are reassembled exactly, controls interleaved',
 "A text or binary message split into any number of fragments, including empty ones, with any control frames between them, is delivered exactly once, when its final fragment arrives, as the concatenation of the fragments; each interleaved control message is delivered intact at its own position. The outcome does not depend on how the bytes were chunked by the transport and is the same for every receive interface.",
 ['inputs','schedules','histories'],"all fragmentations x interleavings of control frames x transport chunkings x receive interfaces and roles",
 "No unit test receives a fragmented message at all; the Autobahn suite is external and not part of the tests.",
 ['src/receiver.rs',WS+'codec/ws.rs',WS+'message.rs'],
 [('blocking reassembly','src/receiver.rs recv_message_dataframes'),('async reassembly','websocket-base/src/codec/ws.rs MessageCodec::decode'),('concatenation','websocket-base/src/message.rs from_dataframes')],
 ['events returned by every receive interface compared with an independent reference decoder'],
 [('buffer','fragments of the message in progress','src/receiver.rs Receiver.buffer; codec/ws.rs MessageCodec.buffer')])
p('C05','Malformed frame sequences never become messages',
 "Frames that break the protocol - a reserved bit set, a reserved opcode, a continuation with nothing to continue, a new data message inside an unfinished one, a fragmented control frame or one over 125 bytes, a length not in its shortest form, or masking wrong for the direction - are reported as an error and no message built from an offending frame is ever delivered. All messages completed before the offence are still delivered.",
 ['inputs','histories'],"all frame sequences containing at least one protocol violation at any position, any chunking, every receive interface and role",
 "Tests cover single well-formed frames; each violation must be rejected at every position in every history and by both decoders.",
 [WS+'ws/util/header.rs',WS+'dataframe.rs',WS+'codec/ws.rs','src/receiver.rs',WS+'message.rs'],
 [('header checks','websocket-base/src/ws/util/header.rs read_header'),('mask direction','websocket-base/src/dataframe.rs read_dataframe_body'),('sequence checks','src/receiver.rs; codec/ws.rs'),('reserved bits and opcodes','websocket-base/src/message.rs from_dataframes')],
 ['results of every receive interface on generated violating sequences'])
p('C06','Only and all valid UTF-8 is delivered as text',
 "A text message is delivered exactly when its whole reassembled payload is valid UTF-8, wherever fragment and read boundaries fall inside a character; otherwise receiving it reports an error and delivers nothing. The same holds for the reason of a close message after its two-byte code.",
 ['inputs'],"all byte payloads (valid, truncated, overlong, surrogate, out-of-range) x all fragmentations, every receive interface",
 "Tests use ASCII text in single frames only.",
 [WS+'message.rs',WS+'ws/util/mod.rs','src/receiver.rs',WS+'codec/ws.rs'],
 [('text validation','websocket-base/src/message.rs from_dataframes'),('close reason validation','websocket-base/src/ws/util/mod.rs bytes_to_string')],
 ['delivered text / error versus an independent UTF-8 validator'])
p('C07','A stream cut at any byte yields only complete messages',
 "If the peer's byte stream ends or fails after any number of bytes, the receiver delivers exactly the messages that were completely received before that point and then reports end of stream or an error, on this and every later attempt. It never delivers a partial, padded or invented message and never loops or blocks on a finished stream.",
 ['crash_points','inputs'],"every cut position (byte offset) of every message stream, with clean end or I/O error, every receive interface",
 "One unit test truncates one frame at two offsets on the low-level reader only.",
 [WS+'dataframe.rs','src/receiver.rs',WS+'codec/ws.rs','src/client/async.rs'],
 [('short payload check','websocket-base/src/dataframe.rs read_dataframe*'),('incomplete frame wait','websocket-base/src/codec/ws.rs decode'),('EOF mapping','websocket-base/src/result.rs')],
 ['messages delivered for every prefix of a stream'])
p('C08','Configured size limits are enforced, and only they',
 "With a frame limit and a message limit configured, a frame whose announced payload exceeds the frame limit is refused with an error before its payload is awaited, and a message still unfinished after its fragments total more than the message limit is refused and never delivered; at most about a million fragments are held for one message. Traffic within both limits, allowing a small fixed overhead per fragment, is always delivered. Limits take effect through every way of setting them - builder, server accept, codecs, receivers, blocking and asynchronous - each for its own quantity, including the default limits.",
 ['inputs','configurations'],"all limit configurations x all configuration entry points x all frame and fragment size sequences around the limits",
 "No test sets a limit; the builder, both accept paths, two codecs and the receiver each wire the two numbers separately.",
 ['src/receiver.rs',WS+'codec/ws.rs',WS+'dataframe.rs','src/client/builder.rs','src/client/sync.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs'],
 [('frame limit','websocket-base/src/dataframe.rs read_dataframe_with_limit; codec/ws.rs DataFrameCodec::decode'),('message limit','src/receiver.rs; codec/ws.rs MessageCodec::decode'),('wiring','src/client/builder.rs connect_on / async_connect_on; src/server/upgrade/*.rs accept_with_limits')],
 ['accept/refuse outcome, bytes consumed at refusal'])
p('C09','Hostile bytes cause errors, never panics, hangs or blow-ups',
 "No byte sequence a peer can send, as a handshake or afterwards, makes any receiving or handshake interface panic, abort, overflow, or run without consuming input or returning. Memory allocated while receiving stays proportional to the bytes actually received plus the configured limits.",
 ['inputs','fault_sequences'],"all byte strings (random, structured, mutated) with any chunking and any transport fault, every interface that consumes peer bytes",
 "Tests feed well-formed input only; absence of panics and of disproportionate allocation is a statement over all inputs.",
 [WS+'ws/util/header.rs',WS+'dataframe.rs',WS+'codec/ws.rs',WS+'message.rs','src/receiver.rs','src/codec/http.rs','src/server/upgrade','src/client/builder.rs','src/header'],
 [('bounded allocation','websocket-base/src/dataframe.rs read_dataframe, read_dataframe_with_limit'),('length checks','websocket-base/src/ws/util/header.rs'),('error propagation','all receive paths')],
 ['process outcome (panic, signal), CPU per case, counting allocator peak'])
p('C10','Waiting for data never loses or corrupts data',
 "A read that has nothing to offer yet - would-block, timed out or interrupted - is retried or reported to the caller, and when data arrives later every message is still delivered exactly once and intact, including when the wait falls between the fragments of one message. For asynchronous interfaces this holds wherever in the byte stream the wait falls, and a task is always woken to continue.",
 ['schedules','fault_sequences'],"all placements of would-block/timeout/interrupt results in the byte stream x all message sequences x receive interfaces",
 "Tests read from cursors that never block.",
 ['src/receiver.rs',WS+'codec/ws.rs',WS+'dataframe.rs',WS+'result.rs','src/codec/http.rs'],
 [('resumable reassembly buffer','src/receiver.rs Receiver.buffer'),('no consumption before a whole frame','codec/ws.rs DataFrameCodec::decode')],
 ['message sequence with injected waits versus without'])
p('C11','Low-level frames survive a write/read round trip',
 "Any frame written through the low-level frame interfaces and read back in the matching role is identical: final flag, three reserved bits, opcode and payload, for both masked and unmasked writing, blocking and asynchronous. Reading a frame consumes exactly that frame's bytes, reading with a limit accepts exactly payloads up to the limit, and a frame masked against the reader's expectation is refused.",
 ['inputs'],"all frames (flags x opcodes x sizes x contents), both roles, every frame-level interface",
 "Tests round-trip one fixed unmasked text frame.",
 [WS+'dataframe.rs',WS+'ws/dataframe.rs',WS+'ws/util/header.rs',WS+'codec/ws.rs','src/client/sync.rs'],
 [('frame reader','websocket-base/src/dataframe.rs'),('frame writer','websocket-base/src/ws/dataframe.rs write_to'),('frame codec','websocket-base/src/codec/ws.rs DataFrameCodec')],
 ['frames in / frames out, reader position'])
p('C12','Message representations convert losslessly',
 "Converting a message among its borrowed form, its owned form, its frame payload and a received frame sequence preserves kind, payload bytes, close code and reason, in every order of conversions. Turning a ping into a pong keeps the data and is refused, leaving the message unchanged, for any other kind; the kind predicates agree with the actual kind.",
 ['inputs'],"all messages of every kind and payload, all conversion chains",
 "Tests never compare the two representations with each other.",
 [WS+'message.rs'],
 [('From impls','websocket-base/src/message.rs'),('take_payload / write_payload / size','websocket-base/src/message.rs DataFrame impls'),('from_dataframes','websocket-base/src/message.rs')],
 ['field-by-field comparison after conversion chains'])
p('C13','A server admits exactly the valid upgrade requests',
 "A server interface accepts a complete request as a WebSocket handshake exactly when its method is GET, its HTTP version is at least 1.1, its upgrade list names websocket and its connection list names upgrade (letter case aside), it carries one key that is the base64 of 16 bytes, and its WebSocket version is absent or 13. Otherwise it reports an error naming a requirement the request really violates. All server interfaces, blocking and asynchronous, raw stream, pre-parsed request and embedding in an HTTP server, decide alike, however the request bytes are segmented.",
 ['inputs','configurations'],"all HTTP requests (methods, versions, header sets with case, list, duplicate and whitespace variations), segmentations, server interfaces",
 "No unit test exercises admission; the decision ranges over all header combinations and five entry points.",
 ['src/server/upgrade/mod.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/codec/http.rs','src/header'],
 [('validate','src/server/upgrade/mod.rs validate'),('entry points','src/server/upgrade/sync.rs IntoWs impls; async.rs IntoWs'),('request parsing','src/codec/http.rs HttpServerCodec')],
 ['admit/refuse decision and error kind versus an independent predicate'])
p('C14','An accepted handshake is answered correctly',
 "Accepting a handshake writes exactly one complete response: status 101 with the request's HTTP version, exactly one upgrade field naming websocket, one connection field naming upgrade, one accept value derived from the request's key as the protocol prescribes, then exactly the protocols and extensions the application chose and the application's extra headers. Extra headers supplied by the application never displace or duplicate the required ones, the blocking and asynchronous paths answer alike, and the request's protocols, extensions, key, version, origin and URI are reported to the application as sent.",
 ['inputs','configurations'],"all valid requests x chosen protocols, extensions and extra headers x accept variants x interfaces",
 "One unit test computes one accept value for the RFC sample key.",
 ['src/server/upgrade/mod.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs',WS+'header.rs','src/header/accept.rs','src/codec/http.rs'],
 [('prepare_headers','src/server/upgrade/mod.rs'),('accept derivation','websocket-base/src/header.rs WebSocketAccept::new'),('encode','src/codec/http.rs HttpServerCodec')],
 ['response bytes parsed independently'])
p('C15','Refused and rejected handshakes hand everything back',
 "When a request is not an acceptable handshake, nothing has been written to the peer and the application gets back the stream, the parsed request where there was one, and every byte already read beyond the request. When the application rejects an acceptable handshake, exactly one 400 response with the application's headers is written, no upgrade is confirmed, and the stream is handed back usable.",
 ['inputs','schedules'],"all refused requests and rejections x bytes following the request x segmentations x interfaces",
 "No unit test follows the failure path or looks at the returned buffer.",
 ['src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/server/mod.rs'],
 [('error tuple','src/server/upgrade/sync.rs into_ws; async.rs into_ws'),('internal_reject','src/server/upgrade/sync.rs, async.rs')],
 ['captured output, returned stream identity, returned buffer + unread stream bytes'])
p('C16','The client sends a correct handshake request',
 "For every address and every set of builder options, the client sends exactly one HTTP/1.1 GET for the address's path and query, with the host (and port unless it is the default of the scheme), upgrade, connection, version 13, a base64 key of 16 bytes, and exactly the protocols, extensions, origin, credentials and other headers asked for; cleared options leave no trace. Unless the caller fixed a key, each connection attempt uses a new random one, and the blocking and asynchronous paths send equivalent requests.",
 ['inputs','configurations','histories'],"all addresses x builder option sequences (set, add, clear, reuse of one builder) x blocking/async",
 "Two unit tests look at the builder's own header map for two addresses; the bytes sent are never inspected.",
 ['src/client/builder.rs','src/codec/http.rs','src/header'],
 [('build_request','src/client/builder.rs'),('encode','src/client/builder.rs connect_on; src/codec/http.rs HttpClientCodec')],
 ['request bytes parsed independently'])
p('C17','The client accepts exactly the genuine upgrade responses',
 "The client establishes a connection exactly when the response has status 101, one accept value derived from the key it sent, an upgrade to websocket and a connection field naming upgrade (letter case aside); any other response, a truncated one or a closed stream yields an error and no client. Errors distinguish redirects (with the target), other status codes and bad upgrade responses, and the blocking and asynchronous clients decide alike.",
 ['inputs','schedules'],"all responses (status, header sets with case/list/duplicate variations, wrong or replayed accept values, truncations) x segmentations x blocking/async",
 "No unit test validates a response.",
 ['src/client/builder.rs','src/codec/http.rs','src/header/accept.rs'],
 [('validate','src/client/builder.rs validate'),('response parsing','src/codec/http.rs HttpClientCodec; hyper parse_response')],
 ['connect result versus an independent predicate over the response'])
p('C18','No byte is lost between handshake and messages',
 "Messages whose bytes arrive together with the handshake, in the same or in neighbouring reads, are all delivered after the handshake completes, on the client and on the server, blocking and asynchronous, wherever the read boundaries fall. Splitting a connection into reader and writer, or taking its stream back, keeps every byte already received, and no handshake byte is ever mistaken for message data.",
 ['schedules','inputs'],"all segmentations of handshake followed by frames, all points at which the connection is split or dismantled",
 "Tests never put data behind the handshake except one HTTP codec test that ignores it.",
 ['src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/client/sync.rs','src/client/builder.rs','src/codec/http.rs',WS+'ws/util/mod.rs'],
 [('buffer hand-over','src/server/upgrade/sync.rs Buffer; src/client/sync.rs split, into_stream; ws/util/mod.rs update_framed_codec'),('request split-off','src/codec/http.rs split_off_http')],
 ['messages delivered after handshake; bytes returned by into_stream'])
p('C19','Handshake header values parse and format faithfully',
 "Lists of protocols, extensions with their parameter names and values, keys, accept values, versions and origins survive formatting and parsing unchanged, for every syntactically valid value, and lists may be split over several fields. Keys and accept values parse exactly when they are the canonical base64 of 16 respectively 20 bytes, and the accept value computed from a key is the one the protocol prescribes for every key.",
 ['inputs'],"all header values of each kind, all list splits",
 "Each header type has one formatting test with one value; extension parameters are only checked after re-formatting.",
 ['src/header/extensions.rs','src/header/protocol.rs','src/header/key.rs','src/header/accept.rs','src/header/version.rs','src/header/origin.rs',WS+'header.rs'],
 [('Extension parser','src/header/extensions.rs FromStr'),('key/accept codec','websocket-base/src/header.rs'),('list headers','src/header/protocol.rs, extensions.rs')],
 ['value -> text -> value and text -> value against independent implementations'])
p('C20','Addresses decide host, port and encryption faithfully',
 "Connecting uses exactly the host and port of the address, with port 80 for plain and 443 for secure schemes when none is given. With a secure address, or through the secure interface, nothing is sent in clear and no request is sent unless the peer presents a certificate that is trusted and valid for the address's host; with a plain address no encryption is attempted. This is the same for the blocking and asynchronous interfaces.",
 ['inputs','configurations','fault_sequences'],"all addresses (scheme, host form, port) x connect interfaces x peer certificates (trusted, untrusted, wrong host, not TLS at all)",
 "No test connects over TLS or looks at the destination address.",
 ['src/client/builder.rs'],
 [('extract_host_port','src/client/builder.rs'),('is_secure_url','src/client/builder.rs'),('wrap_ssl / extract_host_ssl_conn','src/client/builder.rs')],
 ['destination addresses recorded at the connect call, first bytes on the wire, server-side TLS state'])
p('C21','One bad peer never disturbs a server\'s other peers',
 "A server keeps accepting and serving valid clients, in the blocking, TLS and asynchronous variants, whatever earlier peers did during their handshake (garbage, disconnect, failed TLS, invalid request); the asynchronous server also does so while other peers stall. Each accepted connection is paired with the peer that made it: its stream, request and reported address belong together.",
 ['schedules','histories','fault_sequences'],"all interleavings of good, bad and stalled peers on one listener",
 "No test runs a server with more than zero peers.",
 ['src/server/sync.rs','src/server/async.rs','src/server/upgrade/async.rs'],
 [('accept','src/server/sync.rs accept'),('incoming','src/server/async.rs incoming')],
 ['per-peer ids echoed end to end, results of accept / incoming'])
p('C22','Split connections work full duplex and close cleanly',
 "After splitting a connection, its reader and writer can be used from different threads at the same time and each direction stays a lossless in-order message stream. Shutting down one direction ends exactly that direction for the peer, after everything sent before it has been delivered, and leaves the other usable; shutting down all ends both.",
 ['schedules','histories'],"all interleavings of concurrent sends and receives on both ends of a split connection, all shutdown points",
 "No test splits a connection or shuts one down.",
 ['src/client/sync.rs','src/receiver.rs','src/sender.rs',WS+'stream.rs'],
 [('split','src/client/sync.rs split; websocket-base/src/stream.rs Splittable'),('shutdown*','src/receiver.rs, src/sender.rs, src/client/sync.rs')],
 ['uniquely numbered messages recorded at both ends by concurrent threads'])
p('C23','Asynchronous HTTP codecs consume exactly one message head',
 "Decoding a request or response through the HTTP codecs yields the same head however the bytes are segmented, consumes exactly the bytes of that head and leaves every following byte for the next protocol; a complete head that cannot be parsed gives an error rather than silence, and an incomplete one consumes nothing. What one codec encodes the opposite codec decodes to the same method, target, version or status, and headers.",
 ['inputs','schedules'],"all HTTP heads followed by arbitrary bytes, all segmentations, both codecs",
 "Two unit tests decode one fixed head each in one piece and ignore what follows.",
 ['src/codec/http.rs'],
 [('split_off_http','src/codec/http.rs'),('Decoder / Encoder impls','src/codec/http.rs')],
 ['decoded head, remaining buffer, re-encoded bytes'])
p('C24','Masking keys and handshake keys are unpredictable',
 "An attacker who sees any number of masking keys or handshake keys of an endpoint cannot predict the next one better than by guessing.",
 ['histories'],"all histories of observed keys",
 "Tests only check that key generation returns; unpredictability is about what an adversary can compute.",
 [WS+'ws/util/mask.rs',WS+'header.rs'],
 [('gen_mask','websocket-base/src/ws/util/mask.rs'),('WebSocketKey::new','websocket-base/src/header.rs')],
 ['key streams'])
p('C25','Client and server agree on what was negotiated',
 "After a handshake between any client and any server interface of the library both sides hold the same view of it: the server is told exactly the target, origin, protocols, extensions (with parameters) and headers the client was configured with, and the client reports exactly the protocols, extensions and headers the server answered with, in order, for every admissible choice; messages then flow both ways. Holds for every pairing of blocking and asynchronous client and server, over plain and encrypted transport, and for every response of a foreign server.",
 ['inputs','configurations'],"all client configurations x server choices x pairings of interfaces and transports",
 "Unit tests check fields of one side's structures; none lets the library's client and server meet, so a disagreement between what one writes and the other reports goes unseen.",
 ['src/client/builder.rs','src/client/sync.rs','src/server/upgrade/mod.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs'],
 [('ClientBuilder','src/client/builder.rs'),('protocols / extensions / origin accessors','src/server/upgrade/mod.rs'),('protocols / extensions / headers accessors','src/client/sync.rs')],
 ['what the upgrade reports, what the client and the server-side client object report, bytes on the wire'])
p('C26','All ways of using one connection share one position in the stream',
 "However an application mixes the ways of using a connection - messages, data frames, iterators, the raw reader and writer, codecs exchanged, before and after splitting - each unit the peer sent is read exactly once and in order, and everything is written in call order; receiving writes nothing, sending reads nothing, and looking at the connection, dropping an iterator, splitting it or taking it apart changes nothing of the stream.",
 ['histories','inputs','schedules'],"all histories of operations over all interfaces of a connection x all incoming frame sequences and segmentations",
 "Tests use one interface per connection; data lost or duplicated where two interfaces meet needs their combination.",
 ['src/client/sync.rs','src/receiver.rs','src/sender.rs',WS+'message.rs',WS+'codec/ws.rs'],
 [('reader_mut / writer_mut / incoming_messages / incoming_dataframes','src/client/sync.rs'),('Reader','src/receiver.rs'),('into_stream / split','src/client/sync.rs')],
 ['bytes read and written after every operation, units returned by every interface'])
p('C27','Handles act on the very connection or listener they came from',
 "Every handle the library gives (client, upgrade, server, clones, halves, streams) refers to the connection or listener it came from: addresses mirror each other at both ends; options set through it (no-delay, non-blocking) take effect on that socket and no other and can be taken back; a non-blocking endpoint returns at once instead of waiting; clones and asynchronous conversions of a server keep accepting on the same address independent of the original; dropping the last handle of a connection, or an upgrade, ends it for the peer after everything sent before.",
 ['histories','configurations'],"all histories of operations on the handles of several connections and listeners, plain and TLS",
 "Tests never look at a real socket's options or addresses, nor at two connections at once.",
 ['src/client/sync.rs','src/server/sync.rs','src/server/async.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs',WS+'stream.rs'],
 [('set_nonblocking / set_nodelay / local_addr / peer_addr','src/client/sync.rs'),('try_clone / into_async / local_addr / set_nonblocking','src/server/sync.rs'),('drop / tcp_stream','src/server/upgrade/sync.rs')],
 ['socket options and addresses as the operating system reports them, results and durations of the calls, end of stream at the peer'])
p('C28','Failures are reported as what they were, by the operation that met them',
 "When the transport fails a read, write or flush, the send, receive, handshake or server operation in progress returns that very error (kind and content), on every interface; it is never turned into success, a wait, a protocol error or a different error, and what was received completely before it is still delivered first. Conversely a protocol offence over a sound transport is never reported as a transport error, an end of stream or a wait, and inspecting or converting any error does not fail and leads to its cause.",
 ['inputs','fault_sequences'],"all transport errors at every byte of every operation x all protocol offences x all error values",
 "No test injects a transport error; which error an application sees depends on the byte at which the fault strikes and on the interface in use.",
 ['src/result.rs',WS+'result.rs','src/server/upgrade/mod.rs','src/codec/http.rs','src/receiver.rs',WS+'message.rs'],
 [('From conversions, source, Display','src/result.rs, websocket-base/src/result.rs'),('HyperIntoWsError','src/server/upgrade/mod.rs'),('HttpCodecError','src/codec/http.rs'),('from_dataframes','websocket-base/src/message.rs')],
 ['the error value returned by the operation during which the injected fault was met'])
p('C29','Finished connections and attempts leave nothing behind',
 "Once a connection, handshake attempt, listener or codec and everything obtained from it has been dropped, the library keeps nothing on its account: no heap memory, no file descriptor, no thread and no task, whether it ended cleanly, was refused, failed or was abandoned midway; and what a long-lived connection or server holds does not grow with what has passed through it.",
 ['histories','fault_sequences','inputs'],"all histories of connections and attempts, however each ends, repeated any number of times; all long-lived connections and servers",
 "Tests end after one connection; what accumulates shows only over repetition, on the path (refusal, fault, abandonment) that leaks.",
 ['src/client/sync.rs','src/client/async.rs','src/server/sync.rs','src/server/async.rs','src/server/upgrade/sync.rs','src/server/upgrade/async.rs','src/receiver.rs',WS+'codec/ws.rs',WS+'stream.rs'],
 [('split / into_stream / Drop','src/client/sync.rs, src/server/upgrade/sync.rs'),('connect futures','src/client/builder.rs, src/client/async.rs'),('incoming','src/server/async.rs'),('receive state','src/receiver.rs, websocket-base/src/codec/ws.rs')],
 ['live heap bytes (counting allocator), open descriptors and threads between repetitions of one case'])
p('C30','Work stays proportional to the traffic, however it arrives',
 "Once a connection is established, the processor time, the memory traffic and the number of calls and transport operations needed to receive or send grow no faster than in proportion to the bytes, frames and waits that actually occur: whatever the peer sends - messages in very many small fragments, control frames between them, large frames arriving in tiny pieces with waits anywhere - and however slowly it takes what is sent, a peer cannot make an endpoint do work that grows with the square of the traffic. Holds for blocking and asynchronous interfaces, messages and data frames, whole and split.",
 ['inputs','schedules','histories'],"all frame sequences x segmentations x waits x interfaces, at every size",
 "Tests use a handful of bytes; cost that grows with what has been received before is invisible there and lets a peer keep a processor busy with a few megabytes.",
 ['src/receiver.rs',WS+'codec/ws.rs',WS+'dataframe.rs',WS+'ws/dataframe.rs',WS+'message.rs'],
 [('recv_dataframe / recv_message_dataframes','src/receiver.rs'),('MessageCodec decode / encode','websocket-base/src/codec/ws.rs'),('from_dataframes','websocket-base/src/message.rs'),('write_to','websocket-base/src/ws/dataframe.rs')],
 ["the thread's processor time, bytes allocated, calls made and reads and writes of the transport for the same kind of traffic at n and at 16 n"])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
