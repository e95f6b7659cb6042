//! C21: one bad peer never disturbs a server's other peers.
use crate::c20::{connector, identity, leaf_for, World};
use crate::core::*;
use crate::crypto::{accept_for, b64};
use crate::heads::Head;
use crate::hs;
use crate::net;
use crate::wire::{self, F};
use futures::future::Either;
use futures::sync::oneshot;
use futures::{Future, Sink, Stream};
use native_tls::{TlsAcceptor, TlsConnector};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use websocket::server::sync::Server as SyncServer;
use websocket::server::InvalidConnection;
use websocket::OwnedMessage;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Srv {
    Sync,
    SyncIter,
    SyncClone,
    SyncNonblocking,
    SyncTls,
    SyncTlsIter,
    Async,
    AsyncPool,
    AsyncFromSync,
    AsyncTls,
    AsyncTlsFromSync,
}
const SRVS: [Srv; 11] = [
    Srv::Sync,
    Srv::SyncIter,
    Srv::SyncClone,
    Srv::SyncNonblocking,
    Srv::SyncTls,
    Srv::SyncTlsIter,
    Srv::Async,
    Srv::AsyncPool,
    Srv::AsyncFromSync,
    Srv::AsyncTls,
    Srv::AsyncTlsFromSync,
];
impl Srv {
    fn tls(self) -> bool {
        matches!(self, Srv::SyncTls | Srv::SyncTlsIter | Srv::AsyncTls | Srv::AsyncTlsFromSync)
    }
    fn asy(self) -> bool {
        matches!(self, Srv::Async | Srv::AsyncPool | Srv::AsyncFromSync | Srv::AsyncTls | Srv::AsyncTlsFromSync)
    }
}

// ------------------------------------------------------------------ what the server saw
#[derive(Default)]
struct Log {
    /// peer id -> its local address, entered before it sends anything
    addrs: Mutex<HashMap<u64, SocketAddr>>,
    viols: Mutex<Vec<String>>,
    connections: AtomicUsize,
    results: AtomicUsize,
    good: AtomicUsize,
    errors: AtomicUsize,
    paired: AtomicUsize,
    stop: AtomicUsize,
}
impl Log {
    fn viol(&self, s: String) {
        self.viols.lock().unwrap().push(s);
    }
    /// `/peer-N` in the request, `N` in its field, and the stream's far end belong together
    fn pair(&self, what: &str, uri: &str, field: Option<String>, addr: Option<SocketAddr>) -> Option<u64> {
        let id: u64 = uri.strip_prefix("/peer-").and_then(|s| s.split('/').next()).and_then(|s| s.parse().ok())?;
        if let Some(f) = field {
            if f != id.to_string() {
                self.viol(format!("{}: request {} carries the field of peer {}", what, uri, f));
            }
        }
        if let Some(a) = addr {
            match self.addrs.lock().unwrap().get(&id) {
                Some(b) if *b == a => {
                    self.paired.fetch_add(1, Ordering::SeqCst);
                }
                b => self.viol(format!("{}: request {} of the peer at {:?} came with a stream or address of {}", what, uri, b, a)),
            }
        }
        Some(id)
    }
}
fn field(h: &hyper::header::Headers) -> Option<String> {
    h.get_raw("X-Peer").and_then(|v| v.first()).map(|v| String::from_utf8_lossy(v).to_string())
}
fn uri_of(u: &hyper::uri::RequestUri) -> String {
    u.to_string()
}

trait PeerAddr {
    fn peer(&self) -> Option<SocketAddr>;
}
impl PeerAddr for TcpStream {
    fn peer(&self) -> Option<SocketAddr> {
        self.peer_addr().ok()
    }
}
impl PeerAddr for native_tls::TlsStream<TcpStream> {
    fn peer(&self) -> Option<SocketAddr> {
        self.get_ref().peer_addr().ok()
    }
}
impl PeerAddr for tokio_tcp::TcpStream {
    fn peer(&self) -> Option<SocketAddr> {
        self.peer_addr().ok()
    }
}
impl PeerAddr for tokio_tls::TlsStream<tokio_tcp::TcpStream> {
    fn peer(&self) -> Option<SocketAddr> {
        self.get_ref().get_ref().peer_addr().ok()
    }
}

type SyncRes<S> = Result<websocket::server::upgrade::sync::Upgrade<S>, InvalidConnection<S, websocket::server::upgrade::sync::Buffer>>;
/// handle what accept gave; true = stop
fn sync_result<S>(log: &Arc<Log>, r: SyncRes<S>, handlers: &mut Vec<std::thread::JoinHandle<()>>) -> bool
where
    S: websocket_base::stream::Stream + PeerAddr + Send + 'static,
{
    let n = log.results.fetch_add(1, Ordering::SeqCst) + 1;
    let m = log.connections.load(Ordering::SeqCst);
    if n > m {
        log.viol(format!("accept returned {} times for {} connections: {:?}", n, m, r.as_ref().map(|_| ()).map_err(|e| e.error.to_string())));
        return true;
    }
    match r {
        Ok(u) => {
            log.good.fetch_add(1, Ordering::SeqCst);
            let uri = u.uri();
            if uri == "/stop" {
                log.stop.store(1, Ordering::SeqCst);
            }
            let id = log.pair("accepted", &uri, field(&u.request.headers), u.stream.peer());
            let stop = uri == "/stop";
            if handlers.len() > 300 {
                for h in std::mem::take(handlers) {
                    if !h.is_finished() {
                        handlers.push(h);
                    } else if h.join().is_err() {
                        log.viol("a connection's handler panicked".into());
                    }
                }
            }
            handlers.push(std::thread::spawn(move || {
                if let Ok(mut c) = u.accept() {
                    while let Ok(m) = c.recv_message() {
                        match m {
                            OwnedMessage::Text(t) => {
                                if c.send_message(&OwnedMessage::Text(format!("{:?} {} {}", id, uri, t))).is_err() {
                                    return;
                                }
                            }
                            OwnedMessage::Close(_) => {
                                let _ = c.send_message(&OwnedMessage::Close(None));
                                return;
                            }
                            _ => {}
                        }
                    }
                }
            }));
            stop
        }
        Err(e) => {
            log.errors.fetch_add(1, Ordering::SeqCst);
            if let Some(p) = &e.parsed {
                log.pair("refused", &uri_of(&p.subject.1), field(&p.headers), e.stream.as_ref().and_then(|s| s.peer()));
            }
            false
        }
    }
}

fn async_serve<S>(log: Arc<Log>, incoming: websocket::server::r#async::Incoming<S>, stop: oneshot::Receiver<()>) -> impl Future<Item = (), Error = ()> + Send
where
    S: websocket::stream::r#async::Stream + PeerAddr + Send + 'static,
{
    let l = log.clone();
    let serve = incoming
        .then(|r| Ok::<_, ()>(r))
        .for_each(move |r| {
            let n = l.results.fetch_add(1, Ordering::SeqCst) + 1;
            let m = l.connections.load(Ordering::SeqCst);
            if n > m {
                l.viol(format!("incoming gave {} items for {} connections: {:?}", n, m, r.as_ref().map(|_| ()).map_err(|e| e.error.to_string())));
                return Err(());
            }
            match r {
                Ok((u, addr)) => {
                    l.good.fetch_add(1, Ordering::SeqCst);
                    let uri = u.uri();
                    let id = l.pair("accepted", &uri, field(&u.request.headers), Some(addr));
                    l.pair("accepted", &uri, field(&u.request.headers), u.stream.peer());
                    let f = u
                        .accept()
                        .and_then(move |(c, _)| {
                            let (sink, stream) = c.split();
                            stream
                                .take_while(|m| Ok(!m.is_close()))
                                .filter_map(move |m| match m {
                                    OwnedMessage::Text(t) => Some(OwnedMessage::Text(format!("{:?} {} {}", id, uri, t))),
                                    _ => None,
                                })
                                .forward(sink)
                                .and_then(|(_, sink)| sink.send(OwnedMessage::Close(None)))
                        })
                        .map(|_| ())
                        .map_err(|_| ());
                    tokio::spawn(f);
                }
                Err(e) => {
                    l.errors.fetch_add(1, Ordering::SeqCst);
                    if let Some(p) = &e.parsed {
                        l.pair("refused", &uri_of(&p.subject.1), field(&p.headers), e.stream.as_ref().and_then(|s| s.peer()));
                    }
                }
            }
            Ok(())
        });
    let l = log;
    serve.select2(stop.map_err(|_| ())).then(move |r| {
        match r {
            Ok(Either::A(_)) => l.viol("incoming ended".into()),
            Err(Either::A(_)) => {}
            Ok(Either::B(_)) | Err(Either::B(_)) => {}
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ peers
trait Rw: Read + Write + Send {
    fn half_close(&mut self);
}
impl Rw for TcpStream {
    fn half_close(&mut self) {
        let _ = self.shutdown(Shutdown::Write);
    }
}
impl Rw for native_tls::TlsStream<TcpStream> {
    fn half_close(&mut self) {
        let _ = self.shutdown();
        let _ = self.get_ref().shutdown(Shutdown::Write);
    }
}
fn reset_on_close(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32);
    }
}
fn request(id: &str, n: u64, key: &[u8; 16]) -> Head {
    let mut h = Head { first: format!("GET {} HTTP/1.1", id), fields: vec![] };
    h.push("Host", "h");
    h.push("X-Peer", &n.to_string());
    h.push("Connection", "Upgrade");
    h.push("Upgrade", "websocket");
    h.push("Sec-WebSocket-Version", "13");
    h.push("Sec-WebSocket-Key", &b64(key));
    h
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Leave {
    Close,
    Reset,
    HalfClose,
}
#[derive(Clone, PartialEq, Debug)]
enum Kind {
    Good,
    /// bytes on the bare connection, then leave
    Raw(Vec<u8>, Leave),
    /// bytes where HTTP is expected, then leave
    Http(Vec<u8>, Leave),
    /// as above but never leaves until the end (asynchronous servers only)
    StallRaw(Vec<u8>),
    StallHttp(Vec<u8>),
    /// completes the handshake, then leaves without a word
    Vanish(Leave),
}
struct Env<'a> {
    addr: SocketAddr,
    tls: Option<&'a TlsConnector>,
    log: &'a Log,
    held: &'a Mutex<Vec<Box<dyn Rw>>>,
}
fn open(e: &Env, id: u64) -> Result<TcpStream, String> {
    // counted first: the server may accept before connect returns
    e.log.connections.fetch_add(1, Ordering::SeqCst);
    let s = TcpStream::connect(e.addr).map_err(|x| format!("connect: {}", x))?;
    net::guard_sock(&s);
    e.log.addrs.lock().unwrap().insert(id, s.local_addr().map_err(|x| x.to_string())?);
    Ok(s)
}
fn leave(mut s: Box<dyn Rw>, tcp: &TcpStream, l: Leave) {
    match l {
        Leave::Close => {}
        Leave::Reset => reset_on_close(tcp),
        Leave::HalfClose => {
            s.half_close();
            let mut b = [0u8; 4096];
            while let Ok(n) = s.read(&mut b) {
                if n == 0 {
                    break;
                }
            }
        }
    }
}
fn through(e: &Env, s: TcpStream) -> Result<Box<dyn Rw>, String> {
    Ok(match e.tls {
        None => Box::new(s),
        Some(c) => Box::new(c.connect("server.test", s).map_err(|x| format!("TLS: {:?}", x))?),
    })
}
fn handshake(s: &mut dyn Rw, n: u64, path: &str, r: &mut Rng) -> Result<(), String> {
    let key = crate::heads::b16(r);
    let b = request(path, n, &key).encode();
    let mut p = 0;
    while p < b.len() {
        let k = match r.below(3) {
            0 => b.len() - p,
            1 => r.range(1, 20).min(b.len() - p),
            _ => r.range(1, b.len() - p),
        };
        s.write_all(&b[p..p + k]).map_err(|x| format!("write: {}", x))?;
        p += k;
        if r.chance(1, 3) {
            std::thread::yield_now();
        }
    }
    let (h, rest) = net::read_head(&mut &mut *s)?;
    let head = hs::parse_head(&h)?.ok_or("incomplete response")?;
    if !head.first.contains(" 101 ") || head.all("Sec-WebSocket-Accept") != vec![&accept_for(&b64(&key))[..]] {
        return Err(format!("response {:?}", String::from_utf8_lossy(&h)));
    }
    if !rest.is_empty() {
        return Err(format!("{} bytes behind the response", rest.len()));
    }
    Ok(())
}
fn echo(s: &mut dyn Rw, n: u64, path: &str, r: &mut Rng) -> Result<(), String> {
    let mut buf: Vec<u8> = vec![];
    for i in 0..r.range(1, 4) {
        let len = *r.pick(&[5usize, 60, 126, 400]);
        let say = format!("{} of {} {}", i, n, "m".repeat(len));
        let k = r.bytes(4);
        s.write_all(&F::new(true, 1, say.clone().into_bytes()).masked(Some([k[0], k[1], k[2], k[3]])).encode()).map_err(|x| format!("write: {}", x))?;
        let id: Option<u64> = path.strip_prefix("/peer-").and_then(|s| s.parse().ok());
        let want = format!("{:?} {} {}", id, path, say);
        let got = loop {
            if let Some((f, used)) = wire::parse_one(&buf) {
                buf.drain(..used);
                break f;
            }
            let mut b = [0u8; 4096];
            match s.read(&mut b) {
                Ok(0) => return Err("connection ended before the echo".into()),
                Ok(k) => buf.extend_from_slice(&b[..k]),
                Err(x) => return Err(format!("read: {}", x)),
            }
        };
        if got.payload != want.as_bytes() {
            return Err(format!("echo {:?} instead of {:?}", trunc(&String::from_utf8_lossy(&got.payload), 120), trunc(&want, 120)));
        }
    }
    let k = r.bytes(4);
    let _ = s.write_all(&F::new(true, 8, vec![]).masked(Some([k[0], k[1], k[2], k[3]])).encode());
    let mut b = [0u8; 4096];
    while let Ok(n) = s.read(&mut b) {
        if n == 0 {
            break;
        }
    }
    Ok(())
}
/// an error is a violation for a good peer only
fn peer(e: &Env, id: u64, kind: &Kind, path: &str, r: &mut Rng) -> Result<(), String> {
    let s = match open(e, id) {
        Ok(s) => s,
        Err(x) => return if *kind == Kind::Good { Err(x) } else { Ok(()) },
    };
    let tcp = s.try_clone().map_err(|x| x.to_string())?;
    match kind {
        Kind::Good => {
            let mut s = through(e, s)?;
            handshake(&mut *s, id, path, r)?;
            echo(&mut *s, id, path, r)
        }
        Kind::Raw(b, l) => {
            let mut s: Box<dyn Rw> = Box::new(s);
            let _ = s.write_all(b);
            leave(s, &tcp, *l);
            Ok(())
        }
        Kind::Http(b, l) => {
            if let Ok(mut s) = through(e, s) {
                let _ = s.write_all(b);
                leave(s, &tcp, *l);
            }
            Ok(())
        }
        Kind::StallRaw(b) => {
            let mut s: Box<dyn Rw> = Box::new(s);
            let _ = s.write_all(b);
            e.held.lock().unwrap().push(s);
            Ok(())
        }
        Kind::StallHttp(b) => {
            if let Ok(mut s) = through(e, s) {
                let _ = s.write_all(b);
                e.held.lock().unwrap().push(s);
            }
            Ok(())
        }
        Kind::Vanish(l) => {
            if let Ok(mut s) = through(e, s) {
                if handshake(&mut *s, id, path, r).is_ok() {
                    leave(s, &tcp, *l);
                }
            }
            Ok(())
        }
    }
}
const HELLO: &[u8] = b"\x16\x03\x01\x00\x80\x01\x00\x00\x7c\x03\x03";
fn bad(r: &mut Rng, id: u64, tls: bool, asy: bool) -> Kind {
    let l = *r.pick(&[Leave::Close, Leave::Reset, Leave::HalfClose]);
    let path = format!("/peer-{}", id);
    let key = crate::heads::b16(r);
    let whole = request(&path, id, &key);
    let http = match r.below(9) {
        0 => vec![],
        1 => {
            let n = r.range(1, 2000);
            r.bytes(n)
        }
        2 => {
            let b = whole.encode();
            let n = r.below(b.len());
            b[..n].to_vec()
        }
        3 => {
            let mut v = format!("GET {} HTTP/1.1\r\n", path).into_bytes();
            for i in 0..r.range(90, 300) {
                v.extend(format!("x{}: {}\r\n", i, "y".repeat(r.below(3000))).bytes());
            }
            v.extend_from_slice(b"\r\n");
            v
        }
        4 => b"\r\n\r\n\r\n".to_vec(),
        5 => b"NOT HTTP AT ALL\r\n\r\n".to_vec(),
        6 => whole.encode(),
        _ => {
            let mut h = whole.clone();
            match r.below(7) {
                0 => h.remove("Upgrade"),
                1 => h.remove("Connection"),
                2 => h.remove("Sec-WebSocket-Key"),
                3 => h.set("Sec-WebSocket-Version", "12"),
                4 => h.first = h.first.replace("GET", "POST"),
                5 => h.first = h.first.replace("1.1", "1.0"),
                _ => h.set("Sec-WebSocket-Key", "short"),
            }
            h.encode()
        }
    };
    if asy && r.chance(1, 3) {
        // stalls: incomplete material only
        let b = whole.encode();
        let n = r.below(b.len());
        return if tls && r.chance(1, 2) {
            let n = r.below(HELLO.len());
            Kind::StallRaw(HELLO[..n].to_vec())
        } else if r.chance(1, 3) {
            Kind::StallHttp(vec![])
        } else {
            Kind::StallHttp(b[..n].to_vec())
        };
    }
    match r.below(6) {
        0 => Kind::Vanish(l),
        1 | 2 if tls => {
            let b = match r.below(5) {
                0 => vec![],
                1 => {
                    let n = r.range(1, 500);
                    r.bytes(n)
                }
                2 => whole.encode(),
                3 => {
                    let n = r.below(HELLO.len());
                    HELLO[..n].to_vec()
                }
                _ => {
                    let mut v = HELLO.to_vec();
                    v.extend(r.bytes(300));
                    v
                }
            };
            Kind::Raw(b, l)
        }
        _ => Kind::Http(http, l),
    }
}


#[derive(Clone, Copy, PartialEq)]
enum Size {
    Short,
    Long,
    Marathon,
    Stalled(usize),
}
fn scenario(c: &mut Case, w: &World, srv: Srv, size: Size) -> Res {
    let npeers = match size {
        Size::Short => c.rng.range(3, 14),
        Size::Long => c.rng.range(150, 400),
        Size::Marathon => c.rng.range(4_500, 5_000),
        Size::Stalled(n) => n,
    };
    let workers = c.rng.range(1, 6);
    let goods = c.rng.range(1, 3);
    let tls = srv.tls();
    let mut ids = c.rng.below(1_000_000) as u64 * 100;
    let mut plan: Vec<(u64, Kind, Rng)> = vec![];
    for _ in 0..npeers {
        let id = {
            ids += 1;
            ids
        };
        let k = if let Size::Stalled(_) = size {
            if tls && c.rng.chance(1, 2) {
                Kind::StallRaw(HELLO[..c.rng.below(HELLO.len())].to_vec())
            } else {
                let b = request("/peer-1", id, &[0; 16]).encode();
                Kind::StallHttp(b[..c.rng.below(b.len())].to_vec())
            }
        } else if c.rng.chance(goods, 5) { Kind::Good } else { bad(&mut c.rng, id, tls, srv.asy()) };
        let r = Rng::new(c.rng.u64());
        plan.push((id, k, r));
    }
    // peers after the others, whatever those did
    for _ in 0..2 {
        let id = {
            ids += 1;
            ids
        };
        plan.push((id, Kind::Good, Rng::new(c.rng.u64())));
    }
    c.note(format!("{:?}, {} at a time: {:?}", srv, workers, plan.iter().take(500).map(|p| trunc(&format!("{} {:?}", p.0, p.1), 60)).collect::<Vec<_>>()));
    let nbad = plan.iter().filter(|p| p.1 != Kind::Good).count();
    let nstall = plan.iter().filter(|p| matches!(p.1, Kind::StallHttp(_) | Kind::StallRaw(_))).count();
    let log = Arc::new(Log::default());
    let acceptor = || -> Result<TlsAcceptor, Fail> {
        let id = identity(&leaf_for("server.test", None), Some(&w.ca), &[])?;
        TlsAcceptor::new(id).map_err(|e| Fail::H(format!("acceptor: {}", e)))
    };
    let conn = if tls { Some(connector(&w.ca)?) } else { None };
    let io = |e: std::io::Error| Fail::H(format!("bind: {}", e));
    // ---- the server
    let (atx, arx) = std::sync::mpsc::channel::<Result<SocketAddr, String>>();
    let (stop_tx, stop_rx) = oneshot::channel::<()>();
    let l2 = log.clone();
    let acc = if tls { Some(acceptor()?) } else { None };
    let seed = c.rng.u64();
    let server = std::thread::spawn(move || -> Result<(), String> {
        let mut handlers = vec![];
        let e = |e: std::io::Error| e.to_string();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
            match srv {
                Srv::Sync | Srv::SyncNonblocking => {
                    let mut s = SyncServer::bind(net::any().as_str()).map_err(e)?;
                    let _ = atx.send(s.local_addr().map_err(e));
                    let nb = srv == Srv::SyncNonblocking;
                    if nb {
                        s.set_nonblocking(true).map_err(e)?;
                    }
                    let mut idle = 0u64;
                    loop {
                        let r = s.accept();
                        if nb {
                            if let Err(InvalidConnection { stream: None, error: websocket::server::upgrade::HyperIntoWsError::Io(x), .. }) = &r {
                                if x.kind() == std::io::ErrorKind::WouldBlock {
                                    idle += 1;
                                    if idle > 400_000 {
                                        l2.viol("accept reports no connection while peers are waiting".into());
                                        return Ok(());
                                    }
                                    std::thread::sleep(std::time::Duration::from_micros(200));
                                    continue;
                                }
                            }
                        }
                        if sync_result(&l2, r, &mut handlers) {
                            return Ok(());
                        }
                    }
                }
                Srv::SyncIter => {
                    let s = SyncServer::bind(net::any().as_str()).map_err(e)?;
                    let _ = atx.send(s.local_addr().map_err(e));
                    for r in s {
                        if sync_result(&l2, r, &mut handlers) {
                            return Ok(());
                        }
                    }
                    l2.viol("the iterator of connections ended".into());
                    Ok(())
                }
                Srv::SyncClone => {
                    // independently owned handles of one socket take turns
                    let mut s = SyncServer::bind(net::any().as_str()).map_err(e)?;
                    let _ = atx.send(s.local_addr().map_err(e));
                    let mut t = s.try_clone().map_err(e)?;
                    let mut r = Rng::new(seed);
                    loop {
                        let x = if r.chance(1, 2) { s.accept() } else { t.accept() };
                        if sync_result(&l2, x, &mut handlers) {
                            return Ok(());
                        }
                        if r.chance(1, 6) {
                            t = s.try_clone().map_err(e)?;
                        }
                    }
                }
                Srv::SyncTls | Srv::SyncTlsIter => {
                    let mut s = SyncServer::bind_secure(net::any().as_str(), acc.unwrap()).map_err(e)?;
                    let _ = atx.send(s.local_addr().map_err(e));
                    loop {
                        let r = if srv == Srv::SyncTls {
                            s.accept()
                        } else {
                            match s.next() {
                                Some(r) => r,
                                None => {
                                    l2.viol("the iterator of connections ended".into());
                                    return Ok(());
                                }
                            }
                        };
                        if sync_result(&l2, r, &mut handlers) {
                            return Ok(());
                        }
                    }
                }
                Srv::AsyncPool => {
                    let rt = tokio::runtime::Builder::new().core_threads(3).build().map_err(e)?;
                    let h = rt.reactor().clone();
                    let s = websocket::r#async::Server::bind(net::any().as_str(), &h).map_err(e)?;
                    let _ = atx.send(s.local_addr().map_err(e));
                    let mut rt = rt;
                    let _ = rt.block_on(async_serve(l2.clone(), s.incoming(), stop_rx));
                    let _ = rt.shutdown_now().wait();
                    Ok(())
                }
                _ => {
                    let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(e)?;
                    let h = tokio_reactor::Handle::default();
                    match srv {
                        Srv::Async => {
                            let s = websocket::r#async::Server::bind(net::any().as_str(), &h).map_err(e)?;
                            let _ = atx.send(s.local_addr().map_err(e));
                            let _ = rt.block_on(async_serve(l2.clone(), s.incoming(), stop_rx));
                        }
                        Srv::AsyncFromSync => {
                            let s = SyncServer::bind(net::any().as_str()).map_err(e)?.into_async(&h).map_err(e)?;
                            let _ = atx.send(s.local_addr().map_err(e));
                            let _ = rt.block_on(async_serve(l2.clone(), s.incoming(), stop_rx));
                        }
                        Srv::AsyncTls => {
                            let s = websocket::r#async::Server::bind_secure(net::any().as_str(), acc.unwrap(), &h).map_err(e)?;
                            let _ = atx.send(s.local_addr().map_err(e));
                            let _ = rt.block_on(async_serve(l2.clone(), s.incoming(), stop_rx));
                        }
                        _ => {
                            let s = SyncServer::bind_secure(net::any().as_str(), acc.unwrap()).map_err(e)?.into_async(&h).map_err(e)?;
                            let _ = atx.send(s.local_addr().map_err(e));
                            let _ = rt.block_on(async_serve(l2.clone(), s.incoming(), stop_rx));
                        }
                    }
                    Ok(())
                }
            }
        }));
        for h in handlers {
            if h.join().is_err() {
                l2.viol("a connection's handler panicked".into());
            }
        }
        match r {
            Ok(r) => r,
            Err(_) => {
                let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                l2.viol(format!("the server panicked at {}: {}", loc, msg));
                Ok(())
            }
        }
    });
    let _ = io;
    let addr = match arx.recv() {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => hfail!("bind: {}", e),
        Err(_) => match server.join() {
            Ok(Err(e)) => hfail!("server: {}", e),
            _ => viol!("the server ended at once: {:?}", log.viols.lock().unwrap()),
        },
    };
    // ---- the peers
    let held: Mutex<Vec<Box<dyn Rw>>> = Mutex::new(vec![]);
    let failures: Mutex<Vec<String>> = Mutex::new(vec![]);
    let env = Env { addr, tls: conn.as_ref(), log: &log, held: &held };
    let last = plan.split_off(npeers);
    let queue = Mutex::new(plan.into_iter());
    let go = |id: u64, k: &Kind, path: &str, r: &mut Rng| {
        if let Err(x) = peer(&env, id, k, path, r) {
            failures.lock().unwrap().push(format!("good peer {} was not served: {}", id, x));
        }
    };
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| loop {
                let p = queue.lock().unwrap().next();
                match p {
                    Some((id, k, mut r)) => go(id, &k, &format!("/peer-{}", id), &mut r),
                    None => return,
                }
            });
        }
    });
    let (l0, l1) = (&last[0], &last[1]);
    go(l0.0, &l0.1, &format!("/peer-{}", l0.0), &mut l0.2.clone());
    if !srv.asy() {
        go(l1.0, &l1.1, "/stop", &mut l1.2.clone());
    } else {
        go(l1.0, &l1.1, &format!("/peer-{}", l1.0), &mut l1.2.clone());
    }
    // what ended a server early ends it for good: its violation comes first
    if !failures.lock().unwrap().is_empty() && !srv.asy() && log.stop.load(Ordering::SeqCst) == 0 && log.viols.lock().unwrap().is_empty() {
        viol!("{:?} (accept returned {} times, {} good, {} errors)", failures.lock().unwrap(), log.results.load(Ordering::SeqCst), log.good.load(Ordering::SeqCst), log.errors.load(Ordering::SeqCst));
    }
    let _ = stop_tx.send(());
    match server.join() {
        Ok(Ok(())) => {}
        Ok(Err(e)) => hfail!("server: {}", e),
        Err(_) => hfail!("server thread panicked"),
    }
    drop(std::mem::take(&mut *held.lock().unwrap()));
    let v = log.viols.lock().unwrap();
    ensure!(v.is_empty(), "{:?}; {:?}", v, failures.lock().unwrap());
    let f = failures.lock().unwrap();
    ensure!(f.is_empty(), "{:?}", f);
    let n = |x: &AtomicUsize| x.load(Ordering::SeqCst) as u64;
    c.ev("good_peers_served", (npeers + 2 - nbad) as u64);
    c.ev("bad_peers", nbad as u64);
    c.ev("stalled_peers", nstall as u64);
    c.ev("connections_paired", n(&log.paired));
    c.ev("errors_reported", n(&log.errors));
    c.ev(&format!("{:?}", srv), 1);
    c.seen("histories", hash_s(&format!("{:?}{:?}", srv, c.trace)));
    c.eval(hash_s(&c.trace[0].clone()));
    let t = c.trace[0].clone();
    c.sample(|| format!("{} -> {} paired, {} errors", t, n(&log.paired), n(&log.errors)));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("distinct scenarios: the list of good, bad and stalled peers of one listener, how many run at a time, and the server variant");
    x.assume("a blocking server is not expected to go on while a peer stalls; stalls are given to asynchronous servers only");
    x.cap(12, 30);
    let w = World::new();
    for s in SRVS.iter() {
        let n = if s.tls() { x.q(240, 3000) } else { x.q(600, 8000) };
        x.run(&format!("{:?}", s), n, |c| scenario(c, &w, *s, Size::Short));
    }
    for s in SRVS.iter() {
        x.run(&format!("long_{:?}", s), x.q(3, 60), |c| scenario(c, &w, *s, Size::Long));
    }
    // thousands of connections on one listener
    for s in SRVS.iter().filter(|s| !s.tls()) {
        x.run_t(&format!("marathon_{:?}", s), x.q(1, 6), 1, |c| scenario(c, &w, *s, Size::Marathon));
    }
    // as many stalled peers as the descriptors allow
    let mut lim: libc::rlimit = unsafe { std::mem::zeroed() };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim);
        lim.rlim_cur = lim.rlim_max.min(8192);
        libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim);
    }
    // two descriptors a peer, and one more while it is being made
    let most = ((lim.rlim_cur as usize).saturating_sub(200) / 3).min(1200);
    for s in SRVS.iter().filter(|s| s.asy()) {
        x.run_t(&format!("stalled_{:?}", s), x.q(3, 12), 1, |c| {
            let n = match c.idx % 3 {
                0 => most,
                1 => c.rng.range(20, 140).min(most),
                _ => c.rng.range(140, 700).min(most),
            };
            scenario(c, &w, *s, Size::Stalled(n))
        });
    }
    
    x.need("good_peers_served", 3000);
    x.need("bad_peers", 3000);
    x.need("stalled_peers", 300);
    x.need("connections_paired", 3000);
    x.need("errors_reported", 1000);
}
