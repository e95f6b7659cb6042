//! C27: handles act on the very connection or listener they came from.
use crate::c20::World;
use crate::c25::{keys, Keys};
use crate::core::*;
use crate::gen;
use crate::hs;
use crate::net;
use crate::recv::errclass;
use crate::wire::*;
use futures::{Future, Stream as _};
use native_tls::TlsStream;
use std::io::{ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::unix::io::AsRawFd;
use std::time::Duration;
use websocket::receiver::Reader;
use websocket::sender::Writer;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::stream::sync::{AsTcpStream, NetworkStream};
use websocket::sync::Client;
use websocket::{ClientBuilder, WebSocketError};

/// the harness's end
enum P {
    Plain(TcpStream),
    Tls(TlsStream<TcpStream>),
    Gone,
}
impl P {
    fn tcp(&self) -> &TcpStream {
        match self {
            P::Plain(s) => s,
            P::Tls(s) => s.get_ref(),
            P::Gone => unreachable!(),
        }
    }
}
impl Read for P {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            P::Plain(s) => s.read(b),
            P::Tls(s) => s.read(b),
            P::Gone => Err(ErrorKind::NotConnected.into()),
        }
    }
}
impl Write for P {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            P::Plain(s) => s.write(b),
            P::Tls(s) => s.write(b),
            P::Gone => Err(ErrorKind::NotConnected.into()),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
enum H {
    Tcp(Client<TcpStream>),
    Tls(Client<TlsStream<TcpStream>>),
    Dyn(Client<Box<dyn NetworkStream + Send>>),
    Halves(Option<Reader<TcpStream>>, Option<Writer<TcpStream>>),
    Gone,
}
struct Conn {
    name: &'static str,
    h: H,
    peer: P,
    client: bool,
    local: SocketAddr,
    remote: SocketAddr,
    nodelay: bool,
    nonblocking: bool,
    /// written by the peer, not yet received
    owed: std::collections::VecDeque<M>,
}
/// whatever the handle says is its socket
fn sock(h: &H) -> Vec<&TcpStream> {
    match h {
        H::Tcp(c) => vec![c.stream_ref()],
        H::Tls(c) => vec![c.stream_ref().get_ref()],
        H::Dyn(c) => vec![c.stream_ref().as_tcp()],
        H::Halves(r, w) => r.iter().map(|r| r.stream.get_ref()).chain(w.iter().map(|w| &w.stream)).collect(),
        H::Gone => vec![],
    }
}
macro_rules! whole {
    ($h:expr, $c:ident, $e:expr) => {
        match $h {
            H::Tcp($c) => Some($e),
            H::Tls($c) => Some($e),
            H::Dyn($c) => Some($e),
            _ => None,
        }
    };
}
fn flags(s: &TcpStream) -> (bool, bool) {
    let fd = s.as_raw_fd();
    let mut v: libc::c_int = 0;
    let mut l = std::mem::size_of::<libc::c_int>() as libc::socklen_t;
    let (a, b) = unsafe { (libc::getsockopt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, &mut v as *mut _ as *mut libc::c_void, &mut l), libc::fcntl(fd, libc::F_GETFL)) };
    let _ = a;
    (v != 0, b & libc::O_NONBLOCK != 0)
}
/// every handle still names its own connection and has the options it was given
fn audit(what: &str, cs: &[Conn]) -> Res {
    for c in cs {
        for s in sock(&c.h) {
            let (p, l) = (s.peer_addr().ok(), s.local_addr().ok());
            // the address of a peer that has gone is not known any more
            ensure!(l == Some(c.local) && (p == Some(c.remote) || p.is_none()), "{}: {} is {:?} -> {:?}, its handle's stream is {:?} -> {:?}", what, c.name, c.local, c.remote, l, p);
            ensure!(flags(s) == (c.nodelay, c.nonblocking), "{}: {} (no-delay, non-blocking) is {:?}, should be {:?}", what, c.name, flags(s), (c.nodelay, c.nonblocking));
            // nobody asked for a deadline
            let t = (s.read_timeout().ok().flatten(), s.write_timeout().ok().flatten());
            ensure!(t == (None, None), "{}: {} has the (receive, send) deadlines {:?}, nobody set any", what, c.name, t);
        }
    }
    Ok(())
}
fn io<T>(what: &str, r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail::H(format!("{}: {}", what, e)))
}
fn must<T>(what: &str, r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail::V(format!("{}: {}", what, e)))
}
fn read_frame(p: &mut P, what: &str) -> Result<F, Fail> {
    let mut v = vec![];
    loop {
        if let Some((f, n)) = parse_one(&v) {
            ensure!(n == v.len(), "{}: parsing", what);
            return Ok(f);
        }
        let mut b = [0u8; 1];
        match p.read(&mut b) {
            Ok(1) => v.push(b[0]),
            x => viol!("{}: the peer read {:?} after {} bytes of a frame", what, x, v.len()),
        }
    }
}
fn answer_one(mut s: P) -> Result<P, String> {
    net::guard_sock(s.tcp());
    net::answer(&mut s, b"")?;
    Ok(s)
}
const KINDS: [&str; 8] = ["connect_insecure", "connect_secure", "connect ws", "connect wss", "Server", "TLS Server", "connect_on", "into_ws"];

fn open(c: &mut Case, k: &Keys, kind: usize) -> Result<Conn, Fail> {
    let name = KINDS[kind];
    let tls = matches!(kind, 1 | 3 | 5);
    if matches!(kind, 0 | 1 | 2 | 3 | 6) {
        let (l, addr) = net::listener()?;
        let acc = k.acceptor.clone();
        let t = std::thread::spawn(move || -> Result<P, String> {
            let (s, _) = l.accept().map_err(|e| e.to_string())?;
            net::guard_sock(&s);
            answer_one(if tls { P::Tls(acc.accept(s).map_err(|e| format!("tls: {}", e))?) } else { P::Plain(s) })
        });
        let mut b = ClientBuilder::new(&format!("{}://{}/", if tls { "wss" } else { "ws" }, addr)).map_err(|e| Fail::H(e.to_string()))?;
        let h = match kind {
            0 => b.connect_insecure().map(H::Tcp),
            1 => b.connect_secure(Some(k.connector.clone())).map(H::Tls),
            2 => b.connect(None).map(H::Dyn),
            3 => b.connect(Some(k.connector.clone())).map(H::Dyn),
            _ => b.connect_on(io("connect", TcpStream::connect(addr))?).map(H::Tcp),
        };
        let h = match h {
            Ok(h) => h,
            Err(e) => viol!("{}: {}", name, errclass(&e)),
        };
        let peer = t.join().map_err(|_| Fail::H("peer".into()))?.map_err(Fail::H)?;
        let (local, remote) = (io("peer", peer.tcp().peer_addr())?, addr);
        let f = sock(&h).first().map(|s| flags(s)).unwrap_or_default();
        ensure!(!f.1, "{}: a new connection does not block", name);
        return Ok(Conn { name, h, peer, client: true, local, remote, nodelay: f.0, nonblocking: false, owed: Default::default() });
    }
    // the library is the server
    let con = k.connector.clone();
    let go = move |addr: SocketAddr| -> Result<(P, SocketAddr), String> {
        let s = TcpStream::connect(addr).map_err(|e| e.to_string())?;
        net::guard_sock(&s);
        let me = s.local_addr().map_err(|e| e.to_string())?;
        let mut p = if tls { P::Tls(con.connect(&addr.ip().to_string(), s).map_err(|e| format!("tls: {}", e))?) } else { P::Plain(s) };
        p.write_all(&hs::request()).map_err(|e| e.to_string())?;
        Ok((p, me))
    };
    let nodelay = c.rng.below(3);
    macro_rules! accept {
        ($u:expr, $h:path, $me:expr, $addr:expr) => {{
            let u = $u;
            ensure!(u.tcp_stream().peer_addr().ok() == Some($me) && u.tcp_stream().local_addr().ok() == Some($addr), "{}: tcp_stream is {:?} -> {:?}, the connection is {} -> {}", name, u.tcp_stream().local_addr(), u.tcp_stream().peer_addr(), $addr, $me);
            if nodelay > 0 {
                must("set_nodelay", u.tcp_stream().set_nodelay(nodelay == 1))?;
            }
            let f = flags(u.tcp_stream());
            ensure!(nodelay == 0 || f.0 == (nodelay == 1), "{}: no-delay set through tcp_stream has no effect", name);
            match u.accept() {
                Ok(cl) => {
                    let h = $h(cl);
                    ensure!(sock(&h).iter().all(|s| flags(s) == f), "{}: accepting changed the options {:?}", name, f);
                    ensure!(!f.1, "{}: a new connection does not block", name);
                    (h, f.0)
                }
                Err(e) => viol!("{}: accept: {}", name, e.1),
            }
        }};
    }
    let (h, nd, t, addr, me);
    match kind {
        7 => {
            let (l, a) = net::listener()?;
            let th = std::thread::spawn(move || go(a));
            let (s, _) = io("accept", l.accept())?;
            let (p, m) = th.join().map_err(|_| Fail::H("peer".into()))?.map_err(Fail::H)?;
            use websocket::server::upgrade::sync::IntoWs;
            let u = match IntoWs::into_ws(s) {
                Ok(u) => u,
                Err(e) => viol!("{}: {}", name, e.3),
            };
            let r = accept!(u, H::Tcp, m, a);
            h = r.0;
            nd = r.1;
            t = p;
            addr = a;
            me = m;
        }
        4 => {
            let mut srv = must("bind", websocket::sync::Server::bind(net::any().as_str()))?;
            let a = must("local_addr", srv.local_addr())?;
            let th = std::thread::spawn(move || go(a));
            let u = match srv.accept() {
                Ok(u) => u,
                Err(e) => viol!("{}: {}", name, e.error),
            };
            let (p, m) = th.join().map_err(|_| Fail::H("peer".into()))?.map_err(Fail::H)?;
            let r = accept!(u, H::Tcp, m, a);
            h = r.0;
            nd = r.1;
            t = p;
            addr = a;
            me = m;
        }
        _ => {
            let mut srv = must("bind_secure", websocket::sync::Server::bind_secure(net::any().as_str(), k.acceptor.clone()))?;
            let a = must("local_addr", srv.local_addr())?;
            let th = std::thread::spawn(move || go(a));
            let u = match srv.accept() {
                Ok(u) => u,
                Err(e) => viol!("{}: {}", name, e.error),
            };
            let (p, m) = th.join().map_err(|_| Fail::H("peer".into()))?.map_err(Fail::H)?;
            let r = accept!(u, H::Tls, m, a);
            h = r.0;
            nd = r.1;
            t = p;
            addr = a;
            me = m;
        }
    }
    let mut peer = t;
    net::read_head(&mut peer).map_err(|e| Fail::V(format!("{}: {}", name, e)))?;
    Ok(Conn { name, h, peer, client: false, local: addr, remote: me, nodelay: nd, nonblocking: false, owed: Default::default() })
}
fn recv(h: &mut H) -> Option<Result<websocket::OwnedMessage, WebSocketError>> {
    if let H::Halves(r, _) = h {
        return r.as_mut().map(|r| r.recv_message());
    }
    whole!(h, c, c.recv_message())
}
fn small(r: &mut Rng) -> M {
    let n = r.below(40);
    if r.chance(1, 2) {
        M::Text(gen::utf8(r, n))
    } else {
        M::Bin(r.bytes(n))
    }
}
fn connections(c: &mut Case, k: &Keys) -> Res {
    let n = c.rng.range(2, 3);
    let mut cs = vec![];
    for i in 0..n {
        let kind = if i == 0 { (c.idx % 8) as usize } else { c.rng.below(8) };
        cs.push(guard(|| open(c, k, kind))?);
    }
    let mut log: Vec<String> = vec![cs.iter().map(|c| c.name).collect::<Vec<_>>().join(" + ")];
    audit("opened", &cs)?;
    let steps = c.rng.range(5, 16);
    for _ in 0..steps {
        let i = c.rng.below(cs.len());
        let op = c.rng.below(12);
        let m = small(&mut c.rng);
        log.push(format!("#{} {}", i, ["nodelay", "nonblocking", "addresses", "send", "send", "receive", "receive", "split", "drop", "idle receive", "late message", "nodelay"][op]));
        c.note(log.join(", "));
        let what = format!("{:?}", log);
        let rng = &mut c.rng;
        let x = &mut cs[i];
        let mut did = false;
        let mut left_behind = false;
        guard(|| {
            match op {
                0 | 11 => {
                    let v = rng.chance(1, 2);
                    if let Some(r) = whole!(&mut x.h, cl, cl.set_nodelay(v)) {
                        must(&what, r)?;
                        x.nodelay = v;
                        did = true;
                    }
                }
                1 => {
                    let v = rng.chance(1, 2);
                    if let Some(r) = whole!(&x.h, cl, cl.set_nonblocking(v)) {
                        must(&what, r)?;
                        x.nonblocking = v;
                        did = true;
                    }
                }
                2 => {
                    if let Some((p, l)) = whole!(&x.h, cl, (cl.peer_addr(), cl.local_addr())) {
                        did = true;
                        ensure!(p.as_ref().ok() == Some(&x.remote) && l.as_ref().ok() == Some(&x.local), "{}: {} reports {:?} -> {:?}, it is {:?} -> {:?}", what, x.name, l, p, x.local, x.remote);
                    }
                }
                3 | 4 => {
                    let o = m.owned();
                    let r = match &mut x.h {
                        H::Halves(_, Some(w)) => Some(w.send_message(&o)),
                        h => whole!(h, cl, cl.send_message(&o)),
                    };
                    if let Some(r) = r {
                        if let Err(e) = r {
                            viol!("{}: sending: {}", what, errclass(&e));
                        }
                        did = true;
                        let f = read_frame(&mut x.peer, &what)?;
                        ensure!(f.op == m.op() && f.payload == m.payload() && f.mask.is_some() == x.client, "{}: sent {}, its peer got {}", what, m.short(), f.short());
                    }
                }
                5 | 6 | 10 => {
                    // `late`: the receiver is already waiting
                    let late = op == 10 && !x.nonblocking && x.owed.is_empty();
                    let key = if x.client { None } else { Some([1, 2, 3, 4]) };
                    let there = matches!(&x.h, H::Tcp(_) | H::Tls(_) | H::Dyn(_) | H::Halves(Some(_), _));
                    if there {
                        did = true;
                        let fresh = if late || rng.chance(1, 2) { 1 } else { rng.below(4) };
                        let mut bytes = vec![];
                        for k in 0..fresh {
                            let m = if k == 0 { m.clone() } else { small(rng) };
                            bytes.extend(F::new(true, m.op(), m.payload()).masked(key).encode());
                            x.owed.push_back(m);
                        }
                        let take = if late || x.owed.is_empty() { x.owed.len() } else { rng.range(1, x.owed.len()) };
                        if !late && !bytes.is_empty() {
                            io("peer write", x.peer.write_all(&bytes))?;
                        }
                        for _ in 0..take {
                            let r = if late {
                                let peer = &mut x.peer;
                                let h = &mut x.h;
                                let bytes = &bytes;
                                std::thread::scope(|sc| {
                                    sc.spawn(move || {
                                        std::thread::sleep(Duration::from_millis(8));
                                        let _ = peer.write_all(bytes);
                                    });
                                    // a connection must not pass between threads here: receive on this one
                                    recv(h)
                                })
                            } else {
                                let mut r = recv(&mut x.h);
                                let t0 = std::time::Instant::now();
                                while x.nonblocking && t0.elapsed() < Duration::from_secs(20) {
                                    match &r {
                                        Some(Err(WebSocketError::IoError(e))) if e.kind() == ErrorKind::WouldBlock => {
                                            std::thread::sleep(Duration::from_millis(1));
                                            r = recv(&mut x.h);
                                        }
                                        _ => break,
                                    }
                                }
                                r
                            };
                            let m = x.owed.pop_front().unwrap();
                            match r {
                                Some(Ok(g)) => ensure!(M::of(&g) == m, "{}: its peer sent {}, received {}", what, m.short(), M::of(&g).short()),
                                Some(Err(e)) => viol!("{}: {}blocking receive: {}", what, if x.nonblocking { "non-" } else { "" }, errclass(&e)),
                                None => {}
                            }
                        }
                        left_behind = !x.owed.is_empty();
                    }
                }
                9 => {
                    if x.nonblocking && x.owed.is_empty() && !matches!(x.h, H::Gone | H::Halves(None, _)) {
                        did = true;
                        match recv(&mut x.h) {
                            Some(Err(WebSocketError::IoError(e))) if e.kind() == ErrorKind::WouldBlock => {}
                            None => {}
                            Some(r) => viol!("{}: a non-blocking receive with nothing there gave {:?}", what, r.map(|m| M::of(&m))),
                        }
                    }
                }
                7 => {
                    x.h = match std::mem::replace(&mut x.h, H::Gone) {
                        H::Tcp(cl) => {
                            did = true;
                            let (r, w) = must("split", cl.split())?;
                            H::Halves(Some(r), Some(w))
                        }
                        h => h,
                    };
                }
                _ => {
                    let mut gone = false;
                    x.h = match std::mem::replace(&mut x.h, H::Gone) {
                        H::Halves(Some(r), Some(w)) => {
                            if rng.chance(1, 2) {
                                H::Halves(None, Some(w))
                            } else {
                                H::Halves(Some(r), None)
                            }
                        }
                        H::Gone => H::Gone,
                        h => {
                            did = true;
                            drop(h);
                            gone = true;
                            H::Gone
                        }
                    };
                    if gone {
                        let mut b = [0u8; 16];
                        match x.peer.read(&mut b) {
                            Ok(0) => {}
                            Ok(k) => viol!("{}: after the last handle was dropped the peer read {}", what, hex(&b[..k])),
                            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => return Err(Fail::H(format!("{}: no end", what))),
                            Err(_) => {}
                        }
                    }
                }
            }
            Ok(())
        })?;
        audit(&what, &cs)?;
        if !did {
            continue;
        }
        c.ev("operations", 1);
        if left_behind {
            c.ev("messages_left_for_later", 1);
        }
        c.ev(["op_nodelay", "op_nonblocking", "op_addresses", "op_send", "op_send", "op_receive", "op_receive", "op_split", "op_drop", "op_idle", "op_late", "op_nodelay"][op], 1);
    }
    // the peer of one goes away
    let i = c.rng.below(cs.len());
    let abort = c.rng.chance(1, 2);
    if matches!(cs[i].h, H::Tcp(_) | H::Tls(_) | H::Dyn(_)) {
        log.push(format!("#{} its peer {}", i, if abort { "aborts" } else { "closes" }));
        let what = format!("{:?}", log);
        let x = &mut cs[i];
        if abort {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe { libc::setsockopt(x.peer.tcp().as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32) };
        }
        x.peer = P::Gone;
        guard(|| {
            let t0 = std::time::Instant::now();
            loop {
                match recv(&mut x.h) {
                    Some(Err(WebSocketError::IoError(e))) if e.kind() == ErrorKind::WouldBlock && t0.elapsed() < Duration::from_secs(20) => std::thread::sleep(Duration::from_millis(1)),
                    Some(Err(_)) | None => break,
                    Some(Ok(m)) => {
                        let m = M::of(&m);
                        ensure!(x.owed.pop_front().as_ref() == Some(&m), "{}: received {}", what, m.short());
                    }
                }
            }
            if let Some((p, l)) = whole!(&x.h, cl, (cl.peer_addr(), cl.local_addr())) {
                // the system may no longer know the peer; it is never another one
                ensure!(p.is_err() || p.as_ref().ok() == Some(&x.remote), "{}: {} reports peer {:?}, it was {:?}", what, x.name, p, x.remote);
                ensure!(l.as_ref().ok() == Some(&x.local), "{}: {} reports local {:?}, it is {:?}", what, x.name, l, x.local);
                if p.is_err() {
                    c.ev("peer_unknown", 1);
                }
            }
            Ok(())
        })?;
        audit(&what, &cs)?;
        c.ev("peers_gone", 1);
    }
    c.ev("connections", n as u64);
    c.seen("kinds", hash_s(&log[0]));
    c.eval(hash_s(&log.join(",")));
    c.sample(|| log.join(", "));
    Ok(())
}

// ------------------------------------------------------------------ upgrades given up
fn upgrades(c: &mut Case) -> Res {
    let way = (c.idx % 3) as usize;
    let mut bytes = hs::request();
    let extra = c.rng.chance(1, 3);
    if extra {
        let n = c.rng.range(1, 20);
        bytes.extend(c.rng.bytes(n));
    }
    let end = |mut p: TcpStream, what: &str| -> Res {
        let mut b = [0u8; 64];
        match p.read(&mut b) {
            Ok(0) => Ok(()),
            Ok(n) => viol!("{}: the peer of a dropped upgrade read {}", what, hex(&b[..n])),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => Err(Fail::H(format!("{}: the connection of a dropped upgrade stays open", what))),
            Err(_) => Ok(()),
        }
    };
    let what = ["Upgrade::drop", "dropping an upgrade", "Upgrade::drop (async)"][way];
    c.note(what);
    guard(|| {
        if way < 2 {
            let mut s = must("bind", websocket::sync::Server::bind(net::any().as_str()))?;
            let addr = must("local_addr", s.local_addr())?;
            let p = crate::srv::tcp_pair_send(addr, &[bytes.clone()])?;
            match s.accept() {
                Ok(u) if way == 0 => u.drop(),
                Ok(u) => drop(u),
                Err(e) => viol!("{}: {}", what, e.error),
            }
            end(p, what)
        } else {
            let mut rt = io("runtime", tokio::runtime::current_thread::Runtime::new())?;
            let s = must("bind", websocket::r#async::Server::bind(net::any().as_str(), &websocket::r#async::Handle::default()))?;
            let addr = must("local_addr", s.local_addr())?;
            let p = crate::srv::tcp_pair_send(addr, &[bytes.clone()])?;
            match rt.block_on(s.incoming().into_future()) {
                Ok((Some((u, from)), _)) => {
                    ensure!(Some(from) == p.local_addr().ok(), "{}: from {}", what, from);
                    u.drop()
                }
                Ok((None, _)) => viol!("{}: no item", what),
                Err((e, _)) => viol!("{}: {}", what, e.error),
            }
            end(p, what)
        }
    })?;
    c.ev("upgrades_dropped", 1);
    c.eval(hash(&bytes) ^ way as u64);
    Ok(())
}

// ------------------------------------------------------------------ listeners
type Pend = Vec<(SocketAddr, P)>;
fn dial(k: &Keys, tls: bool, addr: SocketAddr) -> std::thread::JoinHandle<Result<(SocketAddr, P), String>> {
    let con = k.connector.clone();
    std::thread::spawn(move || {
        let s = TcpStream::connect(addr).map_err(|e| e.to_string())?;
        net::guard_sock(&s);
        let me = s.local_addr().map_err(|e| e.to_string())?;
        let mut p = if tls { P::Tls(con.connect(&addr.ip().to_string(), s).map_err(|e| format!("tls: {}", e))?) } else { P::Plain(s) };
        p.write_all(&hs::request()).map_err(|e| e.to_string())?;
        Ok((me, p))
    })
}
fn listeners(c: &mut Case, k: &Keys) -> Res {
    let tls = c.idx % 4 == 3;
    let v6 = !tls && c.idx % 8 == 1;
    let any = net::any();
    let bind: &str = if v6 { "[::1]:0" } else { &any };
    let mut log = vec![format!("bind v6 {} tls {}", v6, tls)];
    enum S {
        Plain(Vec<websocket::sync::Server<websocket::server::NoTlsAcceptor>>),
        Tls(websocket::sync::Server<native_tls::TlsAcceptor>),
    }
    let mut s = if tls {
        S::Tls(must("bind_secure", websocket::sync::Server::bind_secure(bind, k.acceptor.clone()))?)
    } else {
        match websocket::sync::Server::bind(bind) {
            Ok(s) => S::Plain(vec![s]),
            // no IPv6 here
            Err(_) if v6 => return Ok(()),
            Err(e) => viol!("bind {}: {}", bind, e),
        }
    };
    let addr = must(
        "local_addr",
        match &s {
            S::Plain(s) => s[0].local_addr(),
            S::Tls(s) => s.local_addr(),
        },
    )?;
    ensure!(addr.port() != 0 && addr.ip().is_loopback() && addr.is_ipv6() == v6, "bound {}, local_addr says {}", bind, addr);
    let mut nonblocking = false;
    let mut kept: Vec<(Conn, usize)> = vec![];
    let steps = c.rng.range(4, 12);
    for _ in 0..steps {
        let op = c.rng.below(8);
        let j = if let S::Plain(v) = &s { c.rng.below(v.len()) } else { 0 };
        log.push(["clone", "drop clone", "nonblocking", "nobody there", "accept", "accept", "accept late", "local_addr"][op].to_string());
        c.note(log.join(", "));
        let what = format!("{:?}", log);
        match op {
            0 => {
                if let S::Plain(v) = &mut s {
                    if v.len() < 4 {
                        let n = must(&what, v[j].try_clone())?;
                        v.push(n);
                        c.ev("server_clones", 1);
                    }
                }
            }
            1 => {
                if let S::Plain(v) = &mut s {
                    if v.len() > 1 {
                        v.remove(j);
                    }
                }
            }
            2 => {
                let b = c.rng.chance(1, 2);
                must(
                    &what,
                    match &s {
                        S::Plain(v) => v[j].set_nonblocking(b),
                        S::Tls(v) => v.set_nonblocking(b),
                    },
                )?;
                nonblocking = b;
            }
            3 if nonblocking => {
                let (e, some) = match &mut s {
                    S::Plain(v) => match guard(|| Ok(v[j].accept()))? {
                        Ok(_) => viol!("{}: a connection nobody made", what),
                        Err(e) => (e.error, e.stream.is_some() || e.parsed.is_some() || e.buffer.is_some()),
                    },
                    S::Tls(v) => match guard(|| Ok(v.accept()))? {
                        Ok(_) => viol!("{}: a connection nobody made", what),
                        Err(e) => (e.error, e.stream.is_some() || e.parsed.is_some() || e.buffer.is_some()),
                    },
                };
                ensure!(!some, "{}: parts of a connection nobody made", what);
                match e {
                    HyperIntoWsError::Io(e) if e.kind() == ErrorKind::WouldBlock => {}
                    e => viol!("{}: a non-blocking accept gave {:?}", what, e),
                }
                c.ev("empty_accepts", 1);
            }
            4 | 5 | 6 => {
                // 6: the server is already waiting (when it waits)
                let late = op == 6 && !nonblocking;
                let th = {
                    let con = k.connector.clone();
                    std::thread::spawn(move || -> Result<(SocketAddr, P), String> {
                        if late {
                            std::thread::sleep(Duration::from_millis(8));
                        }
                        let s = TcpStream::connect(addr).map_err(|e| e.to_string())?;
                        net::guard_sock(&s);
                        let me = s.local_addr().map_err(|e| e.to_string())?;
                        let mut p = if tls { P::Tls(con.connect(&addr.ip().to_string(), s).map_err(|e| format!("tls: {}", e))?) } else { P::Plain(s) };
                        p.write_all(&hs::request()).map_err(|e| e.to_string())?;
                        Ok((me, p))
                    })
                };
                let t0 = std::time::Instant::now();
                let mut local = None;
                let mut seen = None;
                let h = loop {
                    let e = match &mut s {
                        S::Plain(v) => match guard(|| Ok(v[j].accept()))? {
                            Ok(u) => {
                                seen = u.tcp_stream().peer_addr().ok();
                                local = u.tcp_stream().local_addr().ok();
                                match u.accept() {
                                    Ok(c) => break H::Tcp(c),
                                    Err(e) => viol!("{}: {}", what, e.1),
                                }
                            }
                            Err(e) => e.error,
                        },
                        S::Tls(v) => match guard(|| Ok(v.accept()))? {
                            Ok(u) => {
                                seen = u.tcp_stream().peer_addr().ok();
                                local = u.tcp_stream().local_addr().ok();
                                match u.accept() {
                                    Ok(c) => break H::Tls(c),
                                    Err(e) => viol!("{}: {}", what, e.1),
                                }
                            }
                            Err(e) => e.error,
                        },
                    };
                    match e {
                        HyperIntoWsError::Io(ref e) if nonblocking && e.kind() == ErrorKind::WouldBlock => {
                            if t0.elapsed() > Duration::from_secs(60) {
                                return Err(Fail::H(format!("{}: nobody came", what)));
                            }
                            std::thread::sleep(Duration::from_millis(1));
                        }
                        e => viol!("{}: {}accept gave {:?}", what, if nonblocking { "non-blocking " } else { "" }, e),
                    }
                };
                let (me, mut peer) = th.join().map_err(|_| Fail::H("dial".into()))?.map_err(Fail::H)?;
                ensure!(seen == Some(me) && local == Some(addr), "{}: the connection is {} <- {}, tcp_stream is {:?} <- {:?}", what, addr, me, local, seen);
                net::read_head(&mut peer).map_err(|e| Fail::V(format!("{}: {}", what, e)))?;
                let f = sock(&h).first().map(|s| flags(s)).unwrap_or_default();
                ensure!(!f.1, "{}: an accepted connection does not block", what);
                let tag = kept.len();
                kept.push((Conn { name: "accepted", h, peer, client: false, local: addr, remote: me, nodelay: f.0, nonblocking: false, owed: Default::default() }, tag));
                c.ev("accepted", 1);
            }
            _ => {
                let a = match &s {
                    S::Plain(v) => v[j].local_addr(),
                    S::Tls(v) => v.local_addr(),
                };
                ensure!(a.as_ref().ok() == Some(&addr), "{}: local_addr is {:?}, was {}", what, a, addr);
            }
        }
    }
    // turned into an asynchronous server, with some already waiting
    if c.rng.chance(2, 3) {
        let before = c.rng.below(3);
        let after = c.rng.range(1, 2);
        log.push(format!("into_async with {} waiting, {} more", before, after));
        let what = format!("{:?}", log);
        let mut dials: Vec<_> = (0..before).map(|_| dial(k, tls, addr)).collect();
        if !tls {
            let mut v: Pend = vec![];
            for d in dials.drain(..) {
                v.push(d.join().map_err(|_| Fail::H("dial".into()))?.map_err(Fail::H)?);
            }
            dials.extend(v.into_iter().map(|x| std::thread::spawn(move || Ok(x))));
        }
        let k2 = Keys { acceptor: k.acceptor.clone(), connector: k.connector.clone() };
        let got = guard(|| {
            let mut rt = io("runtime", tokio::runtime::current_thread::Runtime::new())?;
            let h = websocket::r#async::Handle::default();
            let n = before + after;
            let mut rest = vec![];
            macro_rules! take {
                ($a:expr) => {{
                    let a = $a;
                    let la = must(&what, a.local_addr())?;
                    ensure!(la == addr, "{}: local_addr is {}, was {}", what, la, addr);
                    for _ in 0..after {
                        rest.push(dial(&k2, tls, addr));
                    }
                    let f = a.incoming().take(n as u64).map_err(|e| format!("incoming: {}", e.error)).and_then(|(u, from)| u.accept().map_err(|e| errclass(&e)).map(move |_| from)).collect();
                    match rt.block_on(f) {
                        Ok(v) => v,
                        Err(e) => viol!("{}: {}", what, e),
                    }
                }};
            }
            let v: Vec<SocketAddr> = match s {
                S::Plain(mut v) => {
                    let one = v.remove(0);
                    drop(v);
                    take!(must(&what, one.into_async(&h))?)
                }
                S::Tls(v) => take!(must(&what, v.into_async(&h))?),
            };
            Ok((v, rest))
        })?;
        let (mut from, rest) = got;
        let mut want = vec![];
        for d in dials.into_iter().chain(rest) {
            want.push(d.join().map_err(|_| Fail::H("dial".into()))?.map_err(Fail::H)?.0);
        }
        from.sort();
        want.sort();
        ensure!(from == want, "{}: connections from {:?}, made by {:?}", what, from, want);
        c.ev("turned_async", 1);
        c.ev("async_accepted", want.len() as u64);
    } else {
        drop(s);
    }
    // the connections outlive their server
    for (x, tag) in kept.iter_mut() {
        let what = format!("{:?} accepted connection {}", log, tag);
        let m = M::Bin(vec![*tag as u8; 3 + *tag]);
        io("peer write", x.peer.write_all(&F::new(true, 2, m.payload()).masked(Some([9, 8, 7, 6])).encode()))?;
        match guard(|| Ok(recv(&mut x.h)))? {
            Some(Ok(g)) if M::of(&g) == m => {}
            r => viol!("{}: sent {}, received {:?}", what, m.short(), r.map(|r| r.map(|m| M::of(&m)).map_err(|e| errclass(&e)))),
        }
        c.ev("outlived", 1);
    }
    audit("server gone", &kept.into_iter().map(|x| x.0).collect::<Vec<_>>())?;
    c.ev("servers", 1);
    c.eval(hash_s(&log.join(",")) ^ c.idx);
    c.sample(|| log.join(", "));
    Ok(())
}
pub fn run(x: &Ctx) {
    x.scale(2);
    x.rule("a case opens two or three connections over loopback through different interfaces (client and server side, with and without TLS) and applies a random history of operations to their handles (options, addresses, sending, receiving when something is there, not there or late, splitting, dropping); after every operation the operating system is asked for the addresses and options of every socket, and compared with what the history implies; listeners likewise with clones, non-blocking accepts and conversion to asynchronous servers; distinct by history");
    x.assume("Linux sockets; that a dropped connection ends for its peer is judged with nothing left unread");
    let w = World::new();
    let k = keys(&w);
    let ks = || k.as_ref().map_err(|_| Fail::H("no certificates".into()));
    x.run_t("connections", x.q(2_400, 40_000), 8, |c| connections(c, ks()?));
    x.run_t("upgrades", x.q(600, 6_000), 8, upgrades);
    x.run_t("listeners", x.q(1_200, 20_000), 8, |c| listeners(c, ks()?));
    x.need("operations", 8_000);
    for n in ["messages_left_for_later", "op_nodelay", "op_nonblocking", "op_addresses", "op_send", "op_receive", "op_split", "op_drop", "op_idle", "op_late"] {
        x.need(n, 200);
    }
    x.need("peers_gone", 300);
    x.need("upgrades_dropped", 300);
    x.need("server_clones", 200);
    x.need("empty_accepts", 100);
    x.need("accepted", 1_000);
    x.need("async_accepted", 500);
    x.need("outlived", 500);
}
