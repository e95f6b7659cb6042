PRE = r'''#![allow(dead_code, unused_imports)]
use futures::{Future, Sink, Stream as _};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use tokio_codec::{Decoder, Encoder};
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::sync::Client;
use websocket::{ClientBuilder, Message, OwnedMessage, WebSocketError};
/// In-memory stream: each read gives (at most) the next chunk, or fails as told; then end of stream.
#[derive(Clone)]
struct Mem {
    inp: Arc<Mutex<VecDeque<Result<Vec<u8>, io::ErrorKind>>>>,
    out: Arc<Mutex<Vec<u8>>>,
}
impl Mem {
    fn new(chunks: Vec<Vec<u8>>) -> Mem {
        Mem { inp: Arc::new(Mutex::new(chunks.into_iter().map(Ok).collect())), out: Default::default() }
    }
    fn push(&self, c: Vec<u8>) {
        self.inp.lock().unwrap().push_back(Ok(c));
    }
    fn fail(&self, k: io::ErrorKind) {
        self.inp.lock().unwrap().push_back(Err(k));
    }
    fn out(&self) -> Vec<u8> {
        self.out.lock().unwrap().clone()
    }
}
impl Read for Mem {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut q = self.inp.lock().unwrap();
        match q.pop_front() {
            None => Ok(0),
            Some(Err(k)) => Err(k.into()),
            Some(Ok(mut c)) => {
                let n = c.len().min(b.len());
                b[..n].copy_from_slice(&c[..n]);
                if n < c.len() {
                    q.push_front(Ok(c.split_off(n)));
                }
                Ok(n)
            }
        }
    }
}
impl Write for Mem {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.out.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Mem {}
impl AsyncWrite for Mem {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        Ok(().into())
    }
}
fn frame(fin: bool, op: u8, mask: bool, p: &[u8]) -> Vec<u8> {
    let mut v = vec![if fin { 0x80 } else { 0 } | op];
    let m = if mask { 0x80 } else { 0 };
    if p.len() < 126 {
        v.push(m | p.len() as u8);
    } else if p.len() < 65536 {
        v.push(m | 126);
        v.extend_from_slice(&(p.len() as u16).to_be_bytes());
    } else {
        v.push(m | 127);
        v.extend_from_slice(&(p.len() as u64).to_be_bytes());
    }
    let k = [1u8, 2, 3, 4];
    if mask {
        v.extend_from_slice(&k);
    }
    v.extend(p.iter().enumerate().map(|(i, b)| if mask { b ^ k[i % 4] } else { *b }));
    v
}
/// blocking client that has done its handshake
fn client<S: Read + Write>(s: S) -> Client<S> {
    Client::unchecked(BufReader::new(s), Headers::new(), true, false)
}
fn server<S: Read + Write>(s: S) -> Client<S> {
    Client::unchecked(BufReader::new(s), Headers::new(), false, true)
}
const NONCE: &[u8; 16] = b"the sample nonce";
const REQUEST: &str = "GET /x HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
const RESPONSE: &str = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n";
fn builder() -> ClientBuilder<'static> {
    ClientBuilder::new("ws://h/x").unwrap().key(*NONCE)
}
'''
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo)

seed('c01-close-swallows-queue', 'C01', [('websocket-base/src/codec/ws.rs', '''		let masked = !self.dataframe_codec.is_server;
		let frame_size = item.message_size(masked);
		if frame_size > dst.remaining_mut() {
			dst.reserve(frame_size);
		}
		item.serialize(&mut dst.writer(), masked)''', '''		let masked = !self.dataframe_codec.is_server;
		let frame_size = item.message_size(masked);
		if frame_size > dst.remaining_mut() {
			// start over with a buffer that is large enough
			let mut grown = BytesMut::with_capacity(frame_size);
			mem::swap(dst, &mut grown);
			if grown.len() < 8 * 1024 {
				dst.reserve(frame_size + grown.len());
				dst.extend_from_slice(&grown);
			}
		}
		item.serialize(&mut dst.writer(), masked)''')],
 'asynchronous sending while at least 8 KiB of earlier messages are still queued because the transport pushes back',
 'queued messages are lost when the write buffer has to grow',
r'''
fn main() {
    use websocket::codec::ws::{Context, MessageCodec};
    let mut c = MessageCodec::<OwnedMessage>::default(Context::Server);
    let mut b = bytes::BytesMut::new();
    let mut want = vec![];
    for i in 0..6u8 {
        let p = vec![i; 3000 * (i as usize + 1)];
        want.extend(frame(true, 2, false, &p));
        c.encode(OwnedMessage::Binary(p), &mut b).unwrap();
    }
    assert!(b[..] == want[..], "{} bytes queued, {} expected", b.len(), want.len());
}
''')

seed('c02-size-65535', 'C02', [('websocket-base/src/ws/dataframe.rs', "s if s <= 65535 => 3,", "s if s < 65535 => 3,")],
 'a payload of exactly 65535 bytes', 'the predicted size of a 65535-byte message is 6 bytes more than what is written',
r'''
fn main() {
    use websocket::ws::Message as _;
    for n in [125usize, 126, 127, 65534, 65535, 65536] {
        let m = OwnedMessage::Binary(vec![7; n]);
        let mut v = vec![];
        m.serialize(&mut v, false).unwrap();
        assert_eq!(m.message_size(false), v.len(), "payload {}", n);
    }
}
''')

seed('c03-per-thread-key-stream', 'C03', [('websocket-base/src/ws/util/mask.rs', '''	rand::random()
}''', '''	use std::cell::Cell;
	use std::time::{SystemTime, UNIX_EPOCH};
	thread_local! {
		// seeding the generator once per thread is much cheaper than a system call per frame
		static STATE: Cell<u64> = Cell::new(0);
	}
	STATE.with(|s| {
		let mut x = s.get();
		if x == 0 {
			let now = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(1);
			x = (now ^ u64::from(std::process::id())).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
		}
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		s.set(x);
		((x >> 32) as u32).to_be_bytes()
	})
}'''), ('websocket-base/src/ws/util/mask.rs', "use rand;\n", "")],
 'two threads of one process that send their first frame within the same second',
 'both threads use the same sequence of masking keys',
r'''
fn keys() -> Vec<Vec<u8>> {
    let m = Mem::new(vec![]);
    let mut c = client(m.clone());
    for _ in 0..20 {
        c.send_message(&OwnedMessage::Binary(vec![])).unwrap();
    }
    m.out().chunks(6).map(|f| f[2..].to_vec()).collect()
}
fn main() {
    let h: Vec<_> = (0..8).map(|_| std::thread::spawn(keys)).collect();
    let all: Vec<Vec<u8>> = h.into_iter().flat_map(|h| h.join().unwrap()).collect();
    let mut u = all.clone();
    u.sort();
    u.dedup();
    assert!(u.len() + 2 >= all.len(), "{} keys, {} different", all.len(), u.len());
}
''')

seed('c04-empty-first-fragment', 'C04', [('websocket-base/src/codec/ws.rs', '''				// control frame
				8..=15 => {''', '''				// an empty fragment adds nothing to the message
				_ if !finished && frame.data.is_empty() => continue,
				// control frame
				8..=15 => {''')],
 'an asynchronous receiver and a fragmented message whose first fragment is empty', 'the message fails as an unexpected continuation',
r'''
fn main() {
    use websocket::codec::ws::{Context, MessageCodec};
    let mut v = frame(false, 1, true, b"");
    v.extend(frame(false, 0, true, b"hello "));
    v.extend(frame(false, 0, true, b""));
    v.extend(frame(true, 0, true, b"world"));
    let mut b = bytes::BytesMut::from(v);
    let mut c = MessageCodec::<OwnedMessage>::default(Context::Server);
    assert_eq!(c.decode(&mut b).expect("decode"), Some(OwnedMessage::Text("hello world".into())));
}
''')

seed('c05-reserved-later-fragment', 'C05', [('websocket-base/src/message.rs', '''			if *dataframe.reserved() != [false; 3] {''', '''			// extensions mark the first frame of a message only
			if i == 0 && *dataframe.reserved() != [false; 3] {''')],
 'a reserved bit on a frame that continues a message', 'the message is delivered',
r'''
fn main() {
    let mut v = frame(false, 2, false, b"a");
    let mut second = frame(true, 0, false, b"b");
    second[0] |= 0x20;
    v.extend(second);
    let mut c = client(Mem::new(vec![v]));
    assert!(c.recv_message().is_err(), "delivered");
}
''')

seed('c06-fragmented-invalid-utf8', 'C06', [('websocket-base/src/message.rs', '''		if opcode == Some(Opcode::Text) {
			if let''', '''		// a character may be cut by the fragments, the conversion below sees to that
		if opcode == Some(Opcode::Text) && !fragmented {
			if let'''), ('websocket-base/src/message.rs', '''		let mut data = Vec::with_capacity(payload_size);
''', '''		let fragmented = frames.len() > 1;
		let mut data = Vec::with_capacity(payload_size);
''')],
 'a fragmented text message that is not valid UTF-8 as a whole', 'it is delivered with replacement characters',
r'''
fn main() {
    let mut v = frame(false, 1, false, b"a\xe2");
    v.extend(frame(true, 0, false, b"\x82b"));
    let mut c = client(Mem::new(vec![v]));
    let r = c.recv_message();
    assert!(r.is_err(), "delivered {:?}", r);
}
''')

seed('c08-limits-swapped', 'C08', [('src/server/upgrade/async.rs', '''		self.internal_accept_with_limits(Some(custom_headers), max_dataframe_size, max_message_size)''', '''		self.internal_accept_with_limits(Some(custom_headers), max_message_size, max_dataframe_size)''')],
 'accept_with_headers_and_limits of the asynchronous server with different limits for frames and messages', 'each limit is applied to the other quantity',
r'''
fn main() {
    use websocket::server::upgrade::r#async::IntoWs;
    let mut v = REQUEST.as_bytes().to_vec();
    v.extend(frame(true, 2, true, &[1; 2000]));
    let u = Mem::new(vec![v]).into_ws().wait().map_err(|e| e.3).unwrap();
    let (c, _) = u.accept_with_headers_and_limits(&Headers::new(), 1000, 100_000).wait().unwrap();
    let r = c.into_future().wait();
    assert!(r.is_err(), "a frame of 2000 bytes passed the frame limit of 1000");
}
''')

seed('c10-wait-between-fragments', 'C10', [('src/receiver.rs', '''			let next = self.recv_dataframe(reader)?;
''', '''			let next = match self.recv_dataframe(reader) {
				Ok(next) => next,
				Err(e) => {
					// the message cannot be completed any more
					self.buffer.clear();
					return Err(e);
				}
			};
''')],
 'a blocking receiver whose read would block between two fragments', 'the fragments received so far are lost',
r'''
fn main() {
    let m = Mem::new(vec![frame(false, 1, false, b"one ")]);
    m.fail(io::ErrorKind::WouldBlock);
    m.push(frame(true, 0, false, b"two"));
    let mut c = client(m);
    assert!(c.recv_message().is_err());
    assert_eq!(c.recv_message().expect("second try"), OwnedMessage::Text("one two".into()));
}
''')

seed('c12-close-code-without-reason', 'C12', [('websocket-base/src/message.rs', '''				Some(c) => Message::close_because(c.status_code, c.reason),
				None''', '''				Some(ref c) if c.reason.is_empty() => Message::close(),
				Some(c) => Message::close_because(c.status_code, c.reason),
				None''')],
 'converting an owned close message with a code and an empty reason into a borrowed one', 'the code is lost',
r'''
fn main() {
    use websocket::CloseData;
    let m = OwnedMessage::Close(Some(CloseData::new(1001, String::new())));
    let b = Message::from(m.clone());
    assert_eq!(OwnedMessage::from(b), m);
}
''')

seed('c13-first-upgrade-only', 'C13', [('src/server/upgrade/mod.rs', '''			if upgrade.iter().all(|u| u.name != ProtocolName::WebSocket) {''', '''			if upgrade.first().map(|u| &u.name) != Some(&ProtocolName::WebSocket) {''')],
 'a request that offers another protocol before websocket in its Upgrade field', 'it is refused',
r'''
fn main() {
    use websocket::server::upgrade::sync::IntoWs;
    let r = REQUEST.replace("Upgrade: websocket", "Upgrade: h2c, websocket");
    assert!(Mem::new(vec![r.into_bytes()]).into_ws().is_ok(), "refused");
}
''')

seed('c14-extra-headers-displace', 'C14', [('src/server/upgrade/mod.rs', '''		if let Some(headers) = custom {
			self.headers.extend(headers.iter());
		}
		// NOTE''', '''		// NOTE'''), ('src/server/upgrade/mod.rs', '''			.set(Upgrade(vec![Protocol::new(ProtocolName::WebSocket, None)]));

		StatusCode''', '''			.set(Upgrade(vec![Protocol::new(ProtocolName::WebSocket, None)]));
		if let Some(headers) = custom {
			self.headers.extend(headers.iter());
		}

		StatusCode''')],
 'accepting with application headers that contain one of the required fields', 'the response carries the application\'s value in place of the required one',
r'''
fn main() {
    use websocket::server::upgrade::sync::IntoWs;
    let m = Mem::new(vec![REQUEST.as_bytes().to_vec()]);
    let mut h = Headers::new();
    h.set_raw("Connection", vec![b"keep-alive".to_vec()]);
    h.set_raw("X-App", vec![b"1".to_vec()]);
    assert!(m.clone().into_ws().map_err(|e| e.3).unwrap().accept_with(&h).is_ok());
    let out = String::from_utf8(m.out()).unwrap();
    assert!(out.contains("X-App: 1"));
    assert!(out.to_lowercase().contains("connection: upgrade"), "{}", out);
}
''')

seed('c15-refused-loses-buffer', 'C15', [('src/server/upgrade/async.rs', '''						Err(e) => Err((io, Some(msg), read_buf, e)),''', '''						// a refused request has no messages behind it
						Err(e) => Err((io, Some(msg), BytesMut::new(), e)),''')],
 'the asynchronous server refusing a request whose body arrived in the same read', 'the bytes behind the request are lost',
r'''
fn main() {
    use websocket::server::upgrade::r#async::IntoWs;
    let v = b"POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: 4\r\n\r\nbody".to_vec();
    match Mem::new(vec![v]).into_ws().wait() {
        Ok(_) => panic!("accepted"),
        Err((_, r, b, _)) => {
            assert!(r.is_some());
            assert_eq!(&b[..], b"body");
        }
    }
}
''')

seed('c16-key-reused', 'C16', [('src/client/builder.rs', '''		if !self.key_set {
			self.headers.set(WebSocketKey::new());
		}''', '''		if !self.headers.has::<WebSocketKey>() {
			self.headers.set(WebSocketKey::new());
		}''')],
 'connecting twice with one builder', 'the second connection uses the key of the first',
r'''
fn main() {
    let mut b = ClientBuilder::new("ws://h/x").unwrap();
    let mut keys = vec![];
    for _ in 0..2 {
        let m = Mem::new(vec![]);
        assert!(b.connect_on(m.clone()).is_err());
        let s = String::from_utf8(m.out()).unwrap();
        keys.push(s.lines().find(|l| l.starts_with("Sec-WebSocket-Key")).unwrap().to_string());
    }
    assert_ne!(keys[0], keys[1]);
}
''')

seed('c17-missing-accept', 'C17', [('src/client/builder.rs', '''		if response.headers.get() != Some(&(WebSocketAccept::new(key))) {
			return Err(WebSocketOtherError::ResponseError(
				"Sec-WebSocket-Accept is invalid",
			))
			.map_err(towse);
		}''', '''		if let Some(accept) = response.headers.get::<WebSocketAccept>() {
			if *accept != WebSocketAccept::new(key) {
				return Err(WebSocketOtherError::ResponseError(
					"Sec-WebSocket-Accept is invalid",
				))
				.map_err(towse);
			}
		}''')],
 'a 101 response whose accept value is missing or is not base64 of 20 bytes', 'the client takes it for genuine',
r'''
fn main() {
    let good = Mem::new(vec![RESPONSE.as_bytes().to_vec()]);
    assert!(builder().connect_on(good).is_ok());
    let bad = RESPONSE.replace("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "abc");
    assert!(builder().connect_on(Mem::new(vec![bad.into_bytes()])).is_err(), "a forged response was accepted");
}
''')

seed('c18-split-forgets', 'C18', [('src/client/sync.rs', '''				stream: BufReader::from_parts(read, buf, pos, cap),''', '''				stream: match cap - pos {
					0..=1 => BufReader::new(read),
					_ => BufReader::from_parts(read, buf, pos, cap),
				},''')],
 'splitting when exactly one byte of the next frame has been read already', 'that byte is lost',
r'''
use websocket::stream::sync::ReadWritePair;
fn main() {
    let mut first = frame(true, 1, false, b"one");
    let second = frame(true, 1, false, b"two");
    first.push(second[0]);
    let m = Mem::new(vec![first, second[1..].to_vec()]);
    let mut c = client(ReadWritePair(m.clone(), m));
    assert_eq!(c.recv_message().unwrap(), OwnedMessage::Text("one".into()));
    let (mut r, _w) = c.split().unwrap();
    assert_eq!(r.recv_message().unwrap(), OwnedMessage::Text("two".into()));
}
''')

seed('c19-first-field-only', 'C19', [('src/header/protocol.rs', '''		from_comma_delimited(raw).map(WebSocketProtocol)''', '''		from_comma_delimited(&raw[..raw.len().min(1)]).map(WebSocketProtocol)''')],
 'a protocol list that is split over several fields', 'only the first field is read',
r'''
fn main() {
    use websocket::server::upgrade::sync::IntoWs;
    let r = REQUEST.replace("Host: h", "Host: h\r\nSec-WebSocket-Protocol: a, b\r\nSec-WebSocket-Protocol: c");
    let u = Mem::new(vec![r.into_bytes()]).into_ws().map_err(|e| e.3).unwrap();
    assert_eq!(u.protocols(), ["a", "b", "c"]);
}
''')

seed('c20-https-in-clear', 'C20', [('src/client/builder.rs', '''		scheme == "wss" || scheme == "https"''', '''		scheme == "wss"''')],
 'an https address through the interface that goes by the address', 'the request is sent in clear',
r'''
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let p = l.local_addr().unwrap().port();
    let h = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut b = [0u8; 16];
        let n = s.read(&mut b).unwrap();
        b[..n].to_vec()
    });
    let _ = ClientBuilder::new(&format!("https://127.0.0.1:{}/", p)).unwrap().connect(None);
    let got = h.join().unwrap();
    assert!(!got.starts_with(b"GET"), "sent in clear: {:?}", String::from_utf8_lossy(&got));
}
''')

seed('c21-few-handshakes-at-once', 'C21', [('src/server/async.rs', '''				let handshake = stream
					.into_ws()
					.map_err(|(stream, req, buf, err)| InvalidConnection {
						stream: Some(stream),
						parsed: req,
						buffer: Some(buf),
						error: err,
					})
					.map(move |u| (u, a));
				futures::future::ok(handshake)
			})
			.buffer_unordered(std::usize::MAX);''', '''				let handshake = stream
					.into_ws()
					.map_err(|(stream, req, buf, err)| InvalidConnection {
						stream: Some(stream),
						parsed: req,
						buffer: Some(buf),
						error: err,
					})
					.map(move |u| (u, a));
				futures::future::ok(handshake)
			})
			.buffer_unordered(64);''')],
 '64 peers that connect to the asynchronous server and stall', 'nobody else is served while they stall',
r'''
fn main() {
    let s = websocket::r#async::Server::bind("127.0.0.1:0", &tokio_reactor::Handle::default()).unwrap();
    let a = s.local_addr().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
        let f = s.incoming().take(1).for_each(move |(u, _)| {
            let _ = tx.send(u.uri());
            Ok(())
        });
        let _ = rt.block_on(f);
    });
    let _stalled: Vec<TcpStream> = (0..100).map(|_| TcpStream::connect(a).unwrap()).collect();
    let mut c = TcpStream::connect(a).unwrap();
    c.write_all(REQUEST.as_bytes()).unwrap();
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(15)).expect("not served"), "/x");
}
''')

seed('c22-writer-ends-both', 'C22', [('src/sender.rs', '''		self.stream.as_tcp().shutdown(Shutdown::Write)''', '''		self.stream.as_tcp().shutdown(Shutdown::Both)''')],
 'shutting down the writer of a split connection while the peer still has something to say', 'the reader is ended too',
r'''
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let c = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (s, _) = l.accept().unwrap();
    let (mut r, w) = client(c).split().unwrap();
    w.shutdown().unwrap();
    let mut s = server(s);
    assert!(s.recv_message().is_err());
    s.send_message(&OwnedMessage::Text("last words".into())).unwrap();
    assert_eq!(r.recv_message().expect("receive"), OwnedMessage::Text("last words".into()));
}
''')

seed('c23-long-head-truncated', 'C23', [('src/codec/http.rs', '''		let byte_len = request.as_bytes().len();
		if byte_len > dst.remaining_mut() {
			dst.reserve(byte_len);
		}''', '''		let byte_len = request.as_bytes().len();
		if byte_len > dst.remaining_mut() {
			dst.reserve(byte_len - dst.remaining_mut());
		}''')],
 'a request head longer than the room left in the write buffer', 'the head is cut off where the buffer ends',
r'''
fn main() {
    use hyper::http::h1::Incoming;
    use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
    for n in [10usize, 3000, 9000, 20000] {
        let mut h = Headers::new();
        h.set_raw("X-Long", vec![vec![b'a'; n]]);
        let mut b = bytes::BytesMut::with_capacity(8 * 1024);
        HttpClientCodec
            .encode(
                Incoming {
                    version: hyper::version::HttpVersion::Http11,
                    subject: (hyper::method::Method::Get, hyper::uri::RequestUri::AbsolutePath("/".into())),
                    headers: h,
                },
                &mut b,
            )
            .unwrap();
        let d = HttpServerCodec.decode(&mut b).unwrap().expect("incomplete");
        assert_eq!(d.headers.get_raw("X-Long").unwrap()[0].len(), n);
    }
}
''')

seed('c02-close-reason-chars', 'C02', [('websocket-base/src/message.rs', '''				&Some(ref c) => c.reason.len() + 2,''', '''				&Some(ref c) => c.reason.chars().count() + 2,''')],
 'sending an owned close message whose reason is not plain ASCII', 'the frame header announces fewer bytes than the payload has',
r'''
fn main() {
    use websocket::message::CloseData;
    use websocket::ws::Message as _;
    for reason in ["", "bye", "d\u{e9}j\u{e0} vu"] {
        let m = OwnedMessage::Close(Some(CloseData::new(1000, reason.into())));
        let mut v = vec![];
        m.serialize(&mut v, false).unwrap();
        let mut want = vec![0x03, 0xe8];
        want.extend_from_slice(reason.as_bytes());
        assert!(v == frame(true, 8, false, &want), "{:?}: {:?}", reason, v);
        assert_eq!(m.message_size(false), v.len());
    }
}
''')

seed('c25-extensions-displace', 'C25', [('src/server/upgrade/mod.rs', '''		let mut extensions: Vec<Extension> = extensions.into_iter().collect();
		upsert_header!(self.headers; WebSocketExtensions; {
			Some(protos) => protos.0.append(&mut extensions),''', '''		let extensions: Vec<Extension> = extensions.into_iter().collect();
		upsert_header!(self.headers; WebSocketExtensions; {
			Some(protos) => protos.0 = extensions,''')],
 'a server that agrees to extensions in more than one step, the later one through use_extensions',
 'extensions the server agreed to earlier are not announced to the client',
r'''
fn main() {
    use websocket::header::extensions::Extension;
    use websocket::sync::server::upgrade::IntoWs;
    let e = |n: &str| Extension { name: n.into(), params: vec![] };
    let s = Mem::new(vec![REQUEST.into()]);
    let u = s.clone().into_ws().map_err(|e| e.3).unwrap();
    let c = u.use_extension(e("one")).use_extensions(vec![e("two"), e("three")]).accept().map_err(|e| e.1).unwrap();
    assert_eq!(c.extensions(), &[e("one"), e("two"), e("three")][..]);
    let mut peer = Mem::new(vec![s.out()]);
    let c = builder().connect_on(&mut peer);
    if let Ok(c) = c {
        assert_eq!(c.extensions(), &[e("one"), e("two"), e("three")][..]);
    } // else: the sample response is not for this key
}
''')

seed('c26-raw-reader-past-buffer', 'C26', [('src/client/sync.rs', '''		&mut self.stream
	}''', '''		self.stream.get_mut()
	}''')],
 'raw reading through reader_mut when received bytes are still buffered behind a message',
 'the buffered bytes are skipped by the raw reader and turn up again behind what it read',
r'''
fn main() {
    let mut a = frame(true, 1, false, b"hello");
    a.extend_from_slice(b"raw bytes");
    let mut c = client(Mem::new(vec![a, b"later".to_vec()]));
    assert_eq!(c.recv_message().unwrap(), OwnedMessage::Text("hello".into()));
    let mut b = [0; 9];
    c.reader_mut().read(&mut b).unwrap();
    assert_eq!(&b, b"raw bytes");
}
''')

seed('c27-nodelay-for-good', 'C27', [('src/client/sync.rs', '''		self.stream.get_ref().as_tcp().set_nodelay(nodelay)''', '''		let stream = self.stream.get_ref().as_tcp();
		if stream.nodelay()? || nodelay {
			// already as wanted
			return stream.set_nodelay(true);
		}
		Ok(())''')],
 'turning no-delay off after it has been turned on', 'the option can be set but not taken back',
r'''
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let mut c = client(TcpStream::connect(l.local_addr().unwrap()).unwrap());
    for &on in &[false, true, true, false, true, false, false] {
        c.set_nodelay(on).unwrap();
        assert_eq!(c.stream_ref().nodelay().unwrap(), on);
    }
}
''')

seed('c28-aborted-is-the-end', 'C28', [('websocket-base/src/result.rs', '''		if err.kind() == io::ErrorKind::UnexpectedEof {''', '''		if let io::ErrorKind::UnexpectedEof
		| io::ErrorKind::ConnectionAborted
		| io::ErrorKind::BrokenPipe = err.kind()
		{''')],
 'a transport that fails with ConnectionAborted or BrokenPipe while receiving or sending', 'the failure is reported as the regular end of the data',
r'''
fn main() {
    use io::ErrorKind::*;
    for &k in &[ConnectionReset, ConnectionAborted, BrokenPipe, NotConnected, PermissionDenied] {
        let s = Mem::new(vec![frame(true, 1, false, b"hello")]);
        s.push(vec![0x82]);
        s.fail(k);
        let mut c = client(s);
        assert_eq!(c.recv_message().unwrap(), OwnedMessage::Text("hello".into()));
        match c.recv_message() {
            Err(WebSocketError::IoError(ref e)) if e.kind() == k => {}
            r => panic!("{:?}: {:?}", k, r),
        }
    }
}
''')

seed('c29-peers-remembered', 'C29', [('src/server/async.rs', '''				error: e.into(),
			})
			.and_then(|(stream, a)| {
				let handshake = stream
					.into_ws()
					.map_err(|(stream, req, buf, err)| InvalidConnection {
						stream: Some(stream),
						parsed: req,
						buffer: Some(buf),
						error: err,
					})
					.map(move |u| (u, a));
				futures::future::ok(handshake)
			})''', '''				error: e.into(),
			})
			.and_then({
				// addresses of the peers in the middle of their handshake
				let pending = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
				move |(stream, a)| {
					let (pending, n) = (pending.clone(), stream.as_raw_fd());
					pending.lock().unwrap().push((n, a, Vec::<u8>::with_capacity(64)));
					let handshake = stream
						.into_ws()
						.map_err(|(stream, req, buf, err)| InvalidConnection {
							stream: Some(stream),
							parsed: req,
							buffer: Some(buf),
							error: err,
						})
						.map(move |u| {
							pending.lock().unwrap().retain(|p| (p.0, p.1) != (n, a));
							(u, a)
						});
					futures::future::ok(handshake)
				}
			})'''), ('src/server/async.rs', '''use std::net::ToSocketAddrs;
''', '''use std::net::ToSocketAddrs;
use std::os::unix::io::AsRawFd;
''')],
 'an asynchronous server that is visited by many peers whose handshake fails', 'the server remembers every one of them',
r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let s = websocket::r#async::Server::bind("127.0.0.1:0", &tokio_reactor::Handle::default()).unwrap();
    let a = s.local_addr().unwrap();
    let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
    let mut incoming = s.incoming();
    let mut visit = |n: usize| {
        for _ in 0..n {
            let mut c = TcpStream::connect(a).unwrap();
            c.write_all(b"POST / HTTP/1.1\r\n\r\n").unwrap();
            match rt.block_on(incoming.by_ref().into_future()) {
                Err((_, _)) => {}
                Ok(_) => panic!("accepted"),
            }
        }
        LIVE.load(SeqCst)
    };
    let before = visit(50);
    let after = visit(400);
    assert!(after - before < 400 * 32, "{} bytes more are held after 400 refused peers", after - before);
}
''')

seed('c30-eager-utf8', 'C30', [('websocket-base/src/message.rs', '''			data.append(&mut dataframe.take_payload());
''', '''			data.append(&mut dataframe.take_payload());
			// fail early, only the last character may be incomplete so far
			if opcode == Some(Opcode::Text) {
				match from_utf8(data.as_slice()) {
					Err(ref e) if e.error_len().is_some() => return Err((*e).into()),
					_ => {}
				}
			}
''')],
 'a text message of very many fragments', 'assembling it takes time that grows with the square of their number',
r'''
fn main() {
    let mut data = vec![];
    let n = 200_000;
    for i in 0..n {
        data.extend_from_slice(&frame(i == n - 1, if i == 0 { 1 } else { 0 }, true, &[b'a'; 50]));
    }
    // chunks of a size a socket would give, so that the stream itself costs little
    let s = Mem::new(data.chunks(4000).map(|c| c.to_vec()).collect());
    let t = std::time::Instant::now();
    match server(s).recv_message().unwrap() {
        OwnedMessage::Text(t) => assert_eq!(t.len(), 50 * n),
        m => panic!("{:?}", m),
    }
    assert!(t.elapsed().as_secs() < 12, "{:?} for a message of {} fragments", t.elapsed(), n);
}
''')

seed('c07-cut-mask', 'C07', [('websocket-base/src/ws/util/header.rs', '''		Some([
			reader.read_u8()?,
			reader.read_u8()?,
			reader.read_u8()?,
			reader.read_u8()?,
		])
''', '''		let mut mask = [0u8; 4];
		let mut filled = 0;
		while filled < mask.len() {
			match reader.read(&mut mask[filled..])? {
				0 => break,
				n => filled += n,
			}
		}
		Some(mask)
''')],
 'a stream that ends inside the masking key of a frame without payload', 'the cut frame is delivered as a message',
r'''
fn main() {
    for &op in &[1u8, 2, 8, 9, 10] {
        let v = frame(true, op, true, b"");
        for n in 0..v.len() {
            let mut c = server(Mem::new(vec![v[..n].to_vec()]));
            let r = c.recv_message();
            assert!(r.is_err(), "cut after {}: {:?}", n, r);
        }
    }
}
''')

seed('c09-accept-of-19-bytes', 'C09', [('websocket-base/src/header.rs', '''				if vec.len() != 20 {''', '''				if accept.len() != 28 {''')],
 'a response whose accept value is base64 of 28 characters but not of 20 bytes', 'the client panics',
r'''
fn main() {
    use websocket::header::WebSocketAccept;
    for v in &["s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "abc", "s3pPLMBiTxaQ9kYGzzhZRbK+xA==", "s3pPLMBiTxaQ9kYGzzhZRbK+xOoo"] {
        let r = v.parse::<WebSocketAccept>();
        assert_eq!(r.is_ok(), *v == "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=");
        let s = RESPONSE.replace("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", v);
        let _ = builder().connect_on(Mem::new(vec![s.into_bytes()]));
    }
}
''')

seed('c11-control-without-reserved', 'C11', [('websocket-base/src/ws/dataframe.rs', '''			let reserved = self.reserved();
''', '''			// extensions apply to data only
			let reserved = match self.opcode() {
				op if op < 8 => *self.reserved(),
				_ => [false; 3],
			};
''')],
 'a low-level control frame with reserved bits', 'the bits are not written',
r'''
fn main() {
    use websocket::dataframe::{DataFrame, Opcode};
    use websocket::ws::dataframe::DataFrame as _;
    for op in 0..16u8 {
        for r in 0..8 {
            let mut d = DataFrame::new(true, Opcode::new(op).unwrap(), b"xyz".to_vec());
            d.reserved = [r & 4 > 0, r & 2 > 0, r & 1 > 0];
            let mut v = vec![];
            d.write_to(&mut v, r % 2 == 0).unwrap();
            let b = DataFrame::read_dataframe(&mut &v[..], r % 2 == 0).unwrap();
            assert_eq!(d, b);
        }
    }
}
''')

seed('c04-heartbeats-skipped', 'C04', [('src/receiver.rs', '''				// Control frame
				8..=15 => {
''', '''				// unsolicited pongs are heartbeats, nobody waits for them
				10 if next.data.is_empty() => finished = false,
				// Control frame
				8..=15 => {
''')],
 'an empty pong between the fragments of a message, on a blocking connection', 'it is not delivered',
r'''
fn main() {
    let mut v = frame(false, 1, false, b"a");
    v.extend(frame(true, 9, false, b""));
    v.extend(frame(true, 10, false, b"x"));
    v.extend(frame(true, 10, false, b""));
    v.extend(frame(true, 0, false, b"b"));
    let mut c = client(Mem::new(vec![v]));
    assert_eq!(c.recv_message().unwrap(), OwnedMessage::Ping(vec![]));
    assert_eq!(c.recv_message().unwrap(), OwnedMessage::Pong(b"x".to_vec()));
    assert_eq!(c.recv_message().unwrap(), OwnedMessage::Pong(vec![]));
    assert_eq!(c.recv_message().unwrap(), OwnedMessage::Text("ab".into()));
}
''')

seed('c06-lossy-reason', 'C06', [('websocket-base/src/message.rs', '''					let reason = bytes_to_string(&data[2..])?;''', '''					let reason = String::from_utf8_lossy(&data[2..]).into_owned();'''), ('websocket-base/src/message.rs', '''use crate::ws::util::bytes_to_string;
''', '')],
 'a close frame whose reason is not UTF-8', 'a made-up reason is delivered',
r'''
fn main() {
    for r in &[&b"\xff"[..], b"ok\xc3", b"\xed\xa0\x80", b"\xc0\x80"] {
        let mut p = vec![3, 232];
        p.extend_from_slice(r);
        let m = client(Mem::new(vec![frame(true, 8, false, &p)])).recv_message();
        assert!(m.is_err(), "{:?}", m);
    }
}
''')

seed('c17-accept-any-case', 'C17', [('src/client/builder.rs', '''		if response.headers.get() != Some(&(WebSocketAccept::new(key))) {''', '''		// some servers do not keep the case of the field's value
		let expected = UniCase(WebSocketAccept::new(key).serialize());
		if response.headers.get::<WebSocketAccept>().map(|a| UniCase(a.serialize())) != Some(expected) {''')],
 'a forged response whose accept value differs from the right one in the case of letters only', 'the client takes it for genuine',
r'''
fn main() {
    assert!(builder().connect_on(Mem::new(vec![RESPONSE.as_bytes().to_vec()])).is_ok());
    let v = "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=";
    for i in 0..v.len() {
        let mut b = v.as_bytes().to_vec();
        b[i] ^= 0x20;
        if !b[i].is_ascii_alphabetic() {
            continue;
        }
        let s = RESPONSE.replace(v, std::str::from_utf8(&b).unwrap());
        assert!(builder().connect_on(Mem::new(vec![s.into_bytes()])).is_err(), "forged response accepted: {:?}", i);
    }
}
''')

seed('c22-writer-all-is-half', 'C22', [('src/sender.rs', '''		self.stream.as_tcp().shutdown(Shutdown::Both)''', '''		// the peer answers the end of our data with its own
		self.stream.as_tcp().shutdown(Shutdown::Write)''')],
 'shutting down both directions through the writer while the reader waits and the peer stays silent', 'the reader is not woken up',
r'''
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let c = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (s, _) = l.accept().unwrap();
    let (mut r, w) = client(c).split().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(r.recv_message().is_err());
    });
    std::thread::sleep(std::time::Duration::from_millis(100));
    w.shutdown_all().unwrap();
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(10)), Ok(true), "the reader still waits");
    drop(s);
}
''')

seed('c23-answer-in-one-version', 'C23', [('src/codec/http.rs', '''		let response = format!("{} {}\\r\\n{}\\r\\n", item.version, item.subject, item.headers);''', '''		// answers state the version of this implementation
		let version = hyper::version::HttpVersion::Http11;
		let response = format!("{} {}\\r\\n{}\\r\\n", version, item.subject, item.headers);''')],
 'encoding a response head of HTTP/1.0', 'another version is written',
r'''
fn main() {
    use hyper::http::h1::Incoming;
    use hyper::version::HttpVersion::*;
    use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
    for v in vec![Http10, Http11] {
        let mut b = bytes::BytesMut::new();
        let i = Incoming { version: v, subject: hyper::status::StatusCode::NotFound, headers: Headers::new() };
        HttpServerCodec.encode(i, &mut b).unwrap();
        assert_eq!(HttpClientCodec.decode(&mut b).unwrap().unwrap().version, v);
    }
}
''')

seed('c28-handshake-always-dropped', 'C28', [('src/server/upgrade/async.rs', '''				(io, None, read_buf, e.into())
''', '''				let e = match HyperIntoWsError::from(e) {
					// a peer that goes away does so in many ways
					HyperIntoWsError::Io(_) => HyperIntoWsError::Io(io::Error::new(
						ErrorKind::ConnectionReset,
						"Connection dropped before handshake could be read",
					)),
					e => e,
				};
				(io, None, read_buf, e)
''')],
 'a transport that fails while the asynchronous server reads the request', 'the failure is reported as another one',
r'''
fn main() {
    use io::ErrorKind::*;
    use websocket::server::upgrade::r#async::IntoWs;
    use websocket::server::upgrade::HyperIntoWsError;
    for &k in &[ConnectionReset, ConnectionAborted, TimedOut, PermissionDenied] {
        let s = Mem::new(vec![REQUEST.as_bytes()[..30].to_vec()]);
        s.fail(k);
        match s.into_ws().wait() {
            Err((_, _, _, HyperIntoWsError::Io(ref e))) if e.kind() == k => {}
            Err((_, _, _, e)) => panic!("{:?}: {:?}", k, e),
            Ok(_) => panic!("accepted"),
        }
    }
}
''')

seed('c29-leaked-text', 'C29', [('websocket-base/src/ws/util/header.rs', '''		if !flags.contains(DataFrameFlags::FIN) {
			return Err(WebSocketError::ProtocolError(
				"Illegal fragmented control frame",
			));
		}''', '''		if !flags.contains(DataFrameFlags::FIN) {
			let text = format!("Illegal fragmented control frame, opcode {}", opcode);
			return Err(WebSocketError::ProtocolError(Box::leak(text.into_boxed_str())));
		}''')],
 'peers that send fragmented control frames', 'each of them costs memory that is never given back',
r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let visit = |n: usize| {
        for i in 0..n {
            let mut v = frame(false, 8 + (i % 3) as u8, true, b"x");
            v.extend(frame(false, 3, true, b"x"));
            assert!(server(Mem::new(vec![v])).recv_message().is_err());
        }
        LIVE.load(SeqCst)
    };
    let before = visit(50);
    let after = visit(1000);
    assert!(after - before < 4000, "{} bytes more are held after 1000 connections", after - before);
}
''')

seed('c30-rest-copied', 'C30', [('websocket-base/src/codec/ws.rs', '''		let body = src.split_to(header.len as usize).to_vec();
''', '''		let body = src[..header.len as usize].to_vec();
		*src = BytesMut::from(&src[header.len as usize..]);
''')],
 'very many small messages that arrive at once, on an asynchronous connection', 'taking them apart takes time that grows with the square of their number',
r'''
fn main() {
    use websocket::codec::ws::{Context, MessageCodec};
    let n = 300_000usize;
    let mut b = bytes::BytesMut::from(frame(true, 2, false, b"0123456789").repeat(n));
    let mut c = MessageCodec::default(Context::Client);
    let t = std::time::Instant::now();
    let mut k = 0;
    while let Some(_) = c.decode(&mut b).unwrap() {
        k += 1;
        assert!(t.elapsed().as_secs() < 10, "{:?} for {} of {} messages", t.elapsed(), k, n);
    }
    assert_eq!(k, n);
}
''')

seed('c12-empty-reason', 'C12', [('websocket-base/src/message.rs', '''			Type::Close => match message.cd_status_code {
				Some(code) => OwnedMessage::Close(Some(CloseData {''', '''			Type::Close => match message.cd_status_code {
				// 1005 stands for the absence of a code and never comes from the wire
				Some(1005) if message.payload.is_empty() => OwnedMessage::Close(None),
				Some(code) => OwnedMessage::Close(Some(CloseData {''')],
 'a close message with the code 1005 and no reason', 'the code gets lost on conversion',
r'''
fn main() {
    for c in 0..=65535u16 {
        for r in &["", "x"] {
            let o = OwnedMessage::from(Message::close_because(c, *r));
            assert_eq!(o, OwnedMessage::Close(Some(websocket::CloseData::new(c, r.to_string()))), "{} {:?}", c, r);
        }
    }
}
''')

seed('c19-parameter-without-value', 'C19', [('src/header/extensions.rs', '''		if let Some(ref x) = self.value {
			write!(f, "={}", x)?;''', '''		if let Some(x) = self.value.as_ref().filter(|x| !x.is_empty()) {
			write!(f, "={}", x)?;''')],
 'an extension parameter with an empty value', 'it is written as one without a value',
r'''
fn main() {
    for t in &["a", "a; b", "a; b=c", "a; b=", "a; b=; c"] {
        let e: websocket::header::extensions::Extension = t.parse().unwrap();
        let f: websocket::header::extensions::Extension = e.to_string().parse().unwrap();
        assert_eq!(e, f);
    }
}
''')

seed('c18-second-read', 'C18', [('websocket-base/src/ws/util/mod.rs', '''	new_parts.read_buf = old_parts.read_buf;''', '''	// give back the room the handshake took
	new_parts.read_buf = match old_parts.read_buf.len() {
		n if n > 4096 => old_parts.read_buf[n - n % 4096..].into(),
		_ => old_parts.read_buf,
	};''')],
 'more than 4096 bytes of messages right behind the head, in one piece, on an asynchronous connection', 'the first of them are lost',
r'''
fn main() {
    for n in [0usize, 100, 4000, 4200, 6000] {
        let mut v = RESPONSE.as_bytes().to_vec();
        v.extend(frame(true, 2, false, &vec![7; n]));
        let (c, _) = builder().async_connect_on(Mem::new(vec![v])).wait().unwrap();
        match c.into_future().wait() {
            Ok((Some(OwnedMessage::Binary(b)), _)) => assert_eq!(b, vec![7; n]),
            Ok((m, _)) => panic!("{}: {:?}", n, m),
            Err((e, _)) => panic!("{}: {:?}", n, e),
        }
    }
}
''')

seed('c26-iterator-starts-afresh', 'C26', [('src/receiver.rs', '''		self.receiver.incoming_messages(&mut self.stream)''', '''		// an iterator begins with a message of its own
		self.receiver = Receiver {
			buffer: Vec::new(),
			buffered_length: 0,
			partial: mem::replace(&mut self.receiver.partial, (Vec::new(), Vec::new())),
			..self.receiver
		};
		self.receiver.incoming_messages(&mut self.stream)''')],
 'on a split connection, changing from recv_message to incoming_messages while a control frame was delivered in the middle of a fragmented message', 'the fragments received so far are lost',
r'''
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let c = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (mut s, _) = l.accept().unwrap();
    let mut v = frame(false, 1, false, b"a");
    v.extend(frame(true, 9, false, b""));
    v.extend(frame(true, 0, false, b"b"));
    s.write_all(&v).unwrap();
    let (mut r, _w) = client(c).split().unwrap();
    assert_eq!(r.recv_message().unwrap(), OwnedMessage::Ping(vec![]));
    assert_eq!(r.incoming_messages().next().unwrap().unwrap(), OwnedMessage::Text("ab".into()));
}
''')

seed('c27-clone-for-itself', 'C27', [('src/server/sync.rs', '''		let inner = self.listener.try_clone()?;
		Ok(Server {''', '''		let inner = self.listener.try_clone()?;
		// a clone is accepted from in a thread of its own
		inner.set_nonblocking(false)?;
		Ok(Server {''')],
 'cloning a server that is in nonblocking mode', 'the original becomes blocking',
r'''
fn main() {
    let mut s = websocket::sync::Server::bind("127.0.0.1:0").unwrap();
    s.set_nonblocking(true).unwrap();
    let _c = s.try_clone().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(s.accept().is_err()));
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(5)), Ok(true), "accept blocks");
}
''')

seed('c02-large-in-two', 'C02', [('websocket-base/src/ws/dataframe.rs', '''		let mut data = Vec::<u8>::new();
		dfh::write_header(&mut data, header)?;
''', '''		let mut data = Vec::<u8>::new();
		if self.size() > 0x40_0000 && !mask && flags == dfh::DataFrameFlags::FIN {
			// large messages go in two halves
			let mut payload = Vec::with_capacity(self.size());
			self.write_payload(&mut payload)?;
			let half = payload.len() / 2;
			let first = dfh::DataFrameHeader {
				flags: dfh::DataFrameFlags::empty(),
				opcode: self.opcode() as u8,
				mask: None,
				len: half as u64,
			};
			dfh::write_header(&mut data, first)?;
			data.extend_from_slice(&payload[..half]);
			let second = dfh::DataFrameHeader {
				flags: dfh::DataFrameFlags::FIN,
				opcode: 0,
				mask: None,
				len: (payload.len() - half) as u64,
			};
			dfh::write_header(&mut data, second)?;
			data.extend_from_slice(&payload[half..]);
			writer.write_all(data.as_slice())?;
			return Ok(());
		}
		dfh::write_header(&mut data, header)?;
''')],
 'a server sending a message of more than 4 MiB', 'it goes out as two frames, not as the one the caller asked for',
r'''
fn main() {
    for n in [100usize, 70_000, 5 << 20] {
        let m = Mem::new(vec![]);
        let p = vec![7u8; n];
        server(m.clone()).send_message(&OwnedMessage::Binary(p.clone())).unwrap();
        assert!(m.out() == frame(true, 2, false, &p), "{} bytes: not one frame", n);
    }
}
''')

seed('c04-large-cut-short', 'C04', [('websocket-base/src/message.rs', '''			data.append(&mut dataframe.take_payload());
''', '''			if i > 0 && data.len() + dataframe.size() > 0x100_0000 {
				// do not let the buffer grow further
				break;
			}
			data.append(&mut dataframe.take_payload());
''')],
 'a fragmented message of more than 16 MiB', 'its last fragments are dropped and the rest is delivered as the message',
r'''
fn main() {
    let mut v = vec![];
    for i in 0..5u8 {
        v.extend(frame(i == 4, if i == 0 { 2 } else { 0 }, false, &vec![i; 4 << 20]));
    }
    let mut c = client(Mem::new(vec![v]));
    match c.recv_message().unwrap() {
        OwnedMessage::Binary(b) => assert_eq!(b.len(), 20 << 20),
        m => panic!("{:?}", m),
    }
}
''')

seed('c08-insecure-frame-limit', 'C08', [('src/client/builder.rs', '''			max_message_size: self.max_message_size,
		};

		let future = tcp_stream.and_then(move |stream| builder.async_connect_on(stream));''', '''			max_message_size: self.max_dataframe_size,
		};

		let future = tcp_stream.and_then(move |stream| builder.async_connect_on(stream));''')],
 'async_connect_insecure by a builder whose limit for messages is smaller than the one for frames', 'a fragmented message above the limit is delivered',
r'''
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("ws://{}/x", l.local_addr().unwrap());
    std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut b = vec![];
        while !b.ends_with(b"\r\n\r\n") {
            let mut x = [0];
            s.read_exact(&mut x).unwrap();
            b.push(x[0]);
        }
        let mut v = RESPONSE.as_bytes().to_vec();
        for i in 0..20 {
            v.extend(frame(i == 19, if i == 0 { 2 } else { 0 }, false, &[1; 1000]));
        }
        s.write_all(&v).unwrap();
        let _ = s.read(&mut [0; 10]);
    });
    let mut rt = tokio::runtime::Builder::new().build().unwrap();
    let f = ClientBuilder::new(&url)
        .unwrap()
        .key(*NONCE)
        .max_dataframe_size(1_000_000)
        .max_message_size(10_000)
        .async_connect_insecure()
        .and_then(|(c, _)| c.into_future().map_err(|e| e.0));
    let r = rt.block_on(f).map(|(m, _)| m);
    assert!(r.is_err(), "20000 bytes passed the message limit of 10000");
}
''')

seed('c09-long-location', 'C09', [('src/client/builder.rs', '''					Some(x) => return Err(WebSocketOtherError::RedirectError(status, x.to_string())).map_err(towse),''', '''					Some(x) => {
						let mut target = x.to_string();
						// nobody shows more than that
						if target.len() > 2000 {
							target.truncate(2000);
						}
						return Err(WebSocketOtherError::RedirectError(status, target)).map_err(towse);
					}''')],
 'a redirection to a target of more than 2000 bytes with a character outside ASCII across the 2000th', 'the client panics',
r'''
fn main() {
    for lead in 0..4 {
        let t = format!("/{}{}", "a".repeat(lead), "\u{20ac}".repeat(900));
        let v = format!("HTTP/1.1 302 Found\r\nLocation: {}\r\n\r\n", t).into_bytes();
        assert!(builder().connect_on(Mem::new(vec![v])).is_err());
    }
}
''')

seed('c13-hyphenated-upgrade', 'C13', [('src/server/upgrade/mod.rs', '''				if UniCase(h as &str) == UniCase("upgrade") {''', '''				if UniCase(h.split('-').next().unwrap_or("")) == UniCase("upgrade") {''')],
 'a Connection field whose only option begins with upgrade and a hyphen', 'the request is accepted',
r'''
fn main() {
    use websocket::server::upgrade::sync::IntoWs;
    let r = REQUEST.replace("Connection: Upgrade", "Connection: upgrade-later");
    assert!(Mem::new(vec![r.into_bytes()]).into_ws().is_err(), "accepted");
    assert!(Mem::new(vec![REQUEST.as_bytes().to_vec()]).into_ws().is_ok(), "refused");
}
''')

seed('c14-slashes-collapsed', 'C14', [('src/server/upgrade/mod.rs', '''		format!("{}", self.request.subject.1)''', '''		match self.request.subject.1 {
			::hyper::uri::RequestUri::AbsolutePath(ref p) => p.replace("//", "/"),
			ref u => format!("{}", u),
		}''')],
 'a request for a path with an empty segment', 'the upgrade reports another path',
r'''
fn main() {
    use websocket::server::upgrade::sync::IntoWs;
    let r = REQUEST.replace("GET /x ", "GET /a//b?u=http://c ");
    let u = Mem::new(vec![r.into_bytes()]).into_ws().map_err(|e| e.3).unwrap();
    assert_eq!(u.uri(), "/a//b?u=http://c");
}
''')

seed('c16-password-used-once', 'C16', [('src/client/builder.rs', '''		let tcp_stream = self.establish_tcp(Some(false))?;

		self.connect_on(tcp_stream)
''', '''		let tcp_stream = self.establish_tcp(Some(false))?;

		let client = self.connect_on(tcp_stream);
		if client.is_ok() {
			// not kept any longer than needed
			let _ = self.url.to_mut().set_password(None);
		}
		client
''')],
 'a second connect_insecure with one builder, for an address with a password', 'the second request carries other credentials',
r'''
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("ws://me:secret@{}/x", l.local_addr().unwrap());
    let th = std::thread::spawn(move || {
        let mut heads = vec![];
        for _ in 0..2 {
            let (mut s, _) = l.accept().unwrap();
            let mut b = vec![];
            while !b.ends_with(b"\r\n\r\n") {
                let mut x = [0];
                s.read_exact(&mut x).unwrap();
                b.push(x[0]);
            }
            s.write_all(RESPONSE.as_bytes()).unwrap();
            heads.push(String::from_utf8(b).unwrap());
        }
        heads
    });
    let mut b = ClientBuilder::new(&url).unwrap().key(*NONCE);
    b.connect_insecure().unwrap();
    b.connect_insecure().unwrap();
    for h in th.join().unwrap() {
        assert!(h.contains("Authorization: Basic bWU6c2VjcmV0"), "{}", h);
    }
}
''')

seed('c18-line-ends-swallowed', 'C18', [('src/server/upgrade/sync.rs', '''		let (stream, buf, pos, cap) = reader.into_parts();
		let buffer = Some(Buffer { buf, cap, pos });
''', '''		let (stream, buf, mut pos, cap) = reader.into_parts();
		// line ends behind the head belong to it
		while cap - pos >= 2 && &buf[pos..pos + 2] == b"\\r\\n" {
			pos += 2;
		}
		let buffer = Some(Buffer { buf, cap, pos });
''')],
 'bytes 0D 0A right behind a request in the same read', 'the upgrade hands on a buffer without them',
r'''
fn main() {
    use websocket::server::upgrade::sync::IntoWs;
    let mut v = REQUEST.as_bytes().to_vec();
    v.extend_from_slice(b"\r\n\x81\x80\0\0\0\0");
    let u = Mem::new(vec![v]).into_ws().map_err(|e| e.3).unwrap();
    let b = u.buffer.unwrap();
    assert_eq!(&b.buf[b.pos..b.cap], b"\r\n\x81\x80\0\0\0\0");
}
''')

seed('c27-blocking-while-buffered', 'C27', [('src/client/sync.rs', '''		self.stream.get_ref().as_tcp().set_nonblocking(nonblocking)''', '''		// with data at hand the next receive will not block in any case
		if nonblocking && !self.stream.get_buf().is_empty() {
			return Ok(());
		}
		self.stream.get_ref().as_tcp().set_nonblocking(nonblocking)''')],
 'set_nonblocking(true) while another received message is already buffered', 'the connection stays blocking',
r'''
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let c = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (mut s, _) = l.accept().unwrap();
    let mut v = frame(true, 1, false, b"a");
    v.extend(frame(true, 1, false, b"b"));
    s.write_all(&v).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut c = client(c);
        c.recv_message().unwrap();
        c.set_nonblocking(true).unwrap();
        c.recv_message().unwrap();
        tx.send(c.recv_message().is_err()).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(5)), Ok(true), "the receive blocks");
    drop(s);
}
''')
