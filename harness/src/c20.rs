//! C20: addresses decide host, port and encryption faithfully.
//! The process' own `connect` and `getaddrinfo` stand in for libc's while a case is armed: they record what was asked
//! for and hand back one end of a loopback connection whose other end a scripted peer serves.
use crate::core::*;
use crate::hs;
use crate::net;
use crate::wire;
use futures::{Future, Sink, Stream};
use native_tls::{Certificate, Identity, Protocol, TlsAcceptor, TlsConnector};
use openssl::asn1::{Asn1Integer, Asn1Time};
use openssl::bn::BigNum;
use openssl::ec::{EcGroup, EcKey};
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::{PKey, Private};
use openssl::x509::extension::{BasicConstraints, ExtendedKeyUsage, KeyUsage, SubjectAlternativeName};
use openssl::x509::{X509Name, X509};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6, TcpListener, TcpStream};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use websocket::{ClientBuilder, Message, OwnedMessage};

// ------------------------------------------------------------------ the stand-ins
#[derive(Default)]
struct Net {
    names: Vec<(String, Vec<IpAddr>)>,
    refuse: Vec<IpAddr>,
    asked: Vec<String>,
    dests: Vec<SocketAddr>,
    to_peer: Option<Sender<TcpStream>>,
}
thread_local! { static NET: RefCell<Option<Net>> = RefCell::new(None); }

fn errno(e: i32) -> i32 {
    unsafe { *libc::__errno_location() = e };
    -1
}
unsafe fn read_addr(a: *const libc::sockaddr, len: libc::socklen_t) -> Option<SocketAddr> {
    match (*a).sa_family as i32 {
        libc::AF_INET if len as usize >= std::mem::size_of::<libc::sockaddr_in>() => {
            let s = &*(a as *const libc::sockaddr_in);
            Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr)), u16::from_be(s.sin_port)).into())
        }
        libc::AF_INET6 if len as usize >= std::mem::size_of::<libc::sockaddr_in6>() => {
            let s = &*(a as *const libc::sockaddr_in6);
            Some(SocketAddrV6::new(Ipv6Addr::from(s.sin6_addr.s6_addr), u16::from_be(s.sin6_port), 0, 0).into())
        }
        _ => None,
    }
}
unsafe fn sys_connect(fd: i32, a: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    libc::syscall(libc::SYS_connect, fd, a, len) as i32
}
/// two ends of a fresh loopback connection
fn pair() -> io::Result<(TcpStream, TcpStream)> {
    let l = TcpListener::bind("127.0.0.1:0")?;
    let port = l.local_addr()?.port();
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as _;
        a.sin_port = port.to_be();
        a.sin_addr.s_addr = u32::from(Ipv4Addr::LOCALHOST).to_be();
        if sys_connect(fd, &a as *const _ as *const _, std::mem::size_of_val(&a) as u32) != 0 {
            return Err(io::Error::last_os_error());
        }
        let (b, _) = l.accept()?;
        net::guard_sock(&b);
        Ok((s, b))
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    let armed = NET.try_with(|n| n.borrow().is_some()).unwrap_or(false);
    let to = if armed { read_addr(a, len) } else { None };
    let to = match to {
        Some(t) => t,
        None => return sys_connect(fd, a, len),
    };
    let (refused, tx) = NET.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.as_mut().unwrap();
        n.dests.push(to);
        (n.refuse.contains(&to.ip()), n.to_peer.clone())
    });
    if refused {
        return errno(libc::ECONNREFUSED);
    }
    match pair() {
        Ok((ours, theirs)) => {
            let fl = libc::fcntl(fd, libc::F_GETFL);
            if fl & libc::O_NONBLOCK != 0 {
                let _ = ours.set_nonblocking(true);
            }
            if libc::dup3(ours.as_raw_fd(), fd, libc::O_CLOEXEC) < 0 {
                return -1;
            }
            let _ = tx.map(|t| t.send(theirs));
            0
        }
        Err(_) => errno(libc::EIO),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const libc::c_char,
    service: *const libc::c_char,
    hints: *const libc::addrinfo,
    res: *mut *mut libc::addrinfo,
) -> i32 {
    let armed = NET.try_with(|n| n.borrow().is_some()).unwrap_or(false);
    if !armed || node.is_null() {
        type F = unsafe extern "C" fn(*const libc::c_char, *const libc::c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> i32;
        let p = libc::dlsym(libc::RTLD_NEXT, b"getaddrinfo\0".as_ptr() as *const _);
        if p.is_null() {
            return libc::EAI_FAIL;
        }
        let f: F = std::mem::transmute(p);
        return f(node, service, hints, res);
    }
    let name = std::ffi::CStr::from_ptr(node).to_string_lossy().to_string();
    let port: u16 = if service.is_null() {
        0
    } else {
        std::ffi::CStr::from_ptr(service).to_string_lossy().parse().unwrap_or(0)
    };
    let ips = NET.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.as_mut().unwrap();
        n.asked.push(name.clone());
        n.names.iter().find(|x| x.0.eq_ignore_ascii_case(&name)).map(|x| x.1.clone())
    });
    let ips = match ips {
        Some(v) if !v.is_empty() => v,
        _ => match name.parse::<IpAddr>() {
            Ok(ip) => vec![ip],
            Err(_) => return libc::EAI_NONAME,
        },
    };
    let mut head: *mut libc::addrinfo = std::ptr::null_mut();
    for ip in ips.iter().rev() {
        let sz = std::mem::size_of::<libc::addrinfo>();
        let b = libc::calloc(1, sz + std::mem::size_of::<libc::sockaddr_storage>()) as *mut u8;
        let ai = b as *mut libc::addrinfo;
        (*ai).ai_socktype = libc::SOCK_STREAM;
        (*ai).ai_protocol = libc::IPPROTO_TCP;
        (*ai).ai_addr = b.add(sz) as *mut _;
        match ip {
            IpAddr::V4(a) => {
                let s = b.add(sz) as *mut libc::sockaddr_in;
                (*s).sin_family = libc::AF_INET as _;
                (*s).sin_addr.s_addr = u32::from(*a).to_be();
                (*s).sin_port = port.to_be();
                (*ai).ai_family = libc::AF_INET;
                (*ai).ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
            }
            IpAddr::V6(a) => {
                let s = b.add(sz) as *mut libc::sockaddr_in6;
                (*s).sin6_family = libc::AF_INET6 as _;
                (*s).sin6_addr.s6_addr = a.octets();
                (*s).sin6_port = port.to_be();
                (*ai).ai_family = libc::AF_INET6;
                (*ai).ai_addrlen = std::mem::size_of::<libc::sockaddr_in6>() as u32;
            }
        }
        (*ai).ai_next = head;
        head = ai;
    }
    *res = head;
    0
}
/// where IPv6 sockets cannot be made, an IPv4 one takes their place: `connect` replaces it anyway
#[no_mangle]
pub unsafe extern "C" fn socket(domain: i32, ty: i32, proto: i32) -> i32 {
    let r = libc::syscall(libc::SYS_socket, domain, ty, proto) as i32;
    if r < 0 && domain == libc::AF_INET6 && NET.try_with(|n| n.borrow().is_some()).unwrap_or(false) {
        return libc::syscall(libc::SYS_socket, libc::AF_INET, ty, proto) as i32;
    }
    r
}

// ------------------------------------------------------------------ certificates
pub struct Ca {
    pub cert: X509,
    pub key: PKey<Private>,
}
fn new_key() -> PKey<Private> {
    let g = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap();
    PKey::from_ec_key(EcKey::generate(&g).unwrap()).unwrap()
}
fn name(cn: &str) -> X509Name {
    let mut b = X509Name::builder().unwrap();
    b.append_entry_by_text("CN", &cn.chars().take(60).collect::<String>()).unwrap();
    b.build()
}
#[derive(Clone, Debug)]
pub struct Leaf {
    pub cn: String,
    pub dns: Vec<String>,
    pub ips: Vec<IpAddr>,
    pub from: &'static str,
    pub to: &'static str,
    pub client_only: bool,
    pub is_ca: bool,
}
pub const VALID_FROM: &str = "20000101000000Z";
pub const VALID_TO: &str = "21500101000000Z";
fn make(leaf: &Leaf, key: &PKey<Private>, issuer: Option<&Ca>) -> X509 {
    let mut b = X509::builder().unwrap();
    b.set_version(2).unwrap();
    let mut sn = BigNum::new().unwrap();
    sn.rand(120, openssl::bn::MsbOption::ONE, false).unwrap();
    b.set_serial_number(&Asn1Integer::from_bn(&sn).unwrap()).unwrap();
    let n = name(&leaf.cn);
    b.set_subject_name(&n).unwrap();
    b.set_issuer_name(issuer.map(|c| c.cert.subject_name()).unwrap_or(&n)).unwrap();
    b.set_pubkey(key).unwrap();
    b.set_not_before(&Asn1Time::from_str_x509(leaf.from).unwrap()).unwrap();
    b.set_not_after(&Asn1Time::from_str_x509(leaf.to).unwrap()).unwrap();
    if leaf.is_ca {
        b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap();
        b.append_extension(KeyUsage::new().critical().key_cert_sign().crl_sign().build().unwrap()).unwrap();
    } else {
        b.append_extension(BasicConstraints::new().build().unwrap()).unwrap();
        let mut e = ExtendedKeyUsage::new();
        if leaf.client_only {
            e.client_auth();
        } else {
            e.server_auth();
        }
        b.append_extension(e.build().unwrap()).unwrap();
        if !leaf.dns.is_empty() || !leaf.ips.is_empty() {
            let mut s = SubjectAlternativeName::new();
            for d in &leaf.dns {
                s.dns(d);
            }
            for i in &leaf.ips {
                s.ip(&i.to_string());
            }
            let e = s.build(&b.x509v3_context(issuer.map(|c| &*c.cert), None)).unwrap();
            b.append_extension(e).unwrap();
        }
    }
    b.sign(issuer.map(|c| &c.key).unwrap_or(key), MessageDigest::sha256()).unwrap();
    b.build()
}
pub fn new_ca(cn: &str, issuer: Option<&Ca>) -> Ca {
    let key = new_key();
    let leaf = Leaf { cn: cn.into(), dns: vec![], ips: vec![], from: VALID_FROM, to: VALID_TO, client_only: false, is_ca: true };
    Ca { cert: make(&leaf, &key, issuer), key }
}
pub fn leaf_for(host: &str, ip: Option<IpAddr>) -> Leaf {
    Leaf {
        cn: "test".into(),
        dns: if ip.is_none() { vec![host.to_string()] } else { vec![] },
        ips: ip.into_iter().collect(),
        from: VALID_FROM,
        to: VALID_TO,
        client_only: false,
        is_ca: false,
    }
}
pub fn identity(leaf: &Leaf, issuer: Option<&Ca>, chain: &[&X509]) -> Result<Identity, Fail> {
    let key = new_key();
    let cert = make(leaf, &key, issuer);
    let mut pem = cert.to_pem().unwrap();
    for c in chain {
        pem.extend_from_slice(&c.to_pem().unwrap());
    }
    Identity::from_pkcs8(&pem, &key.private_key_to_pem_pkcs8().unwrap()).map_err(|e| Fail::H(format!("identity: {}", e)))
}
pub fn connector(root: &Ca) -> Result<TlsConnector, Fail> {
    let c = Certificate::from_der(&root.cert.to_der().unwrap()).map_err(|e| Fail::H(e.to_string()))?;
    TlsConnector::builder().add_root_certificate(c).build().map_err(|e| Fail::H(e.to_string()))
}

// ------------------------------------------------------------------ the peer
#[derive(Clone)]
enum Peer {
    Tls(TlsAcceptor),
    /// a TLS server whose output ends after so many bytes
    TlsCut(TlsAcceptor, usize),
    /// answers any request in clear; if none comes, says 101 in clear anyway
    Clear,
    Bytes(Vec<u8>),
    Close,
    CloseAfter(usize),
}
#[derive(Default, Debug)]
struct Seen {
    raw: Vec<u8>,
    tls_ok: bool,
    head: Option<hs::Head>,
    head_bytes: Vec<u8>,
    app: Vec<u8>,
    err: String,
}
#[derive(Debug)]
struct Tap {
    s: TcpStream,
    raw: Arc<Mutex<Vec<u8>>>,
    left: Option<usize>,
}
impl Read for Tap {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.s.read(b)?;
        self.raw.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl Write for Tap {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self.left {
            None => self.s.write(b),
            Some(0) => Err(io::ErrorKind::BrokenPipe.into()),
            Some(k) => {
                let n = k.min(b.len());
                let n = self.s.write(&b[..n])?;
                self.left = Some(k - n);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// serve the websocket handshake and exchange one message each way
fn talk<S: Read + Write>(s: &mut S, seen: &mut Seen, extra: &[u8]) -> Result<(), String> {
    let (h, rest) = net::read_head(s)?;
    seen.head_bytes = h.clone();
    let head = hs::parse_head(&h)?.ok_or("incomplete head")?;
    let key = head.all("Sec-WebSocket-Key").first().map(|s| s.to_string()).ok_or("no key")?;
    seen.head = Some(head);
    seen.app = rest;
    let mut r = hs::response_with_key(&key);
    r.extend_from_slice(extra);
    s.write_all(&r).map_err(|e| e.to_string())?;
    let mut b = [0u8; 512];
    loop {
        if let Ok(v) = wire::parse_sent(&seen.app) {
            if !v.is_empty() {
                return Ok(());
            }
        }
        match s.read(&mut b) {
            Ok(0) => return Err("end of stream".into()),
            Ok(n) => seen.app.extend_from_slice(&b[..n]),
            Err(e) => return Err(e.to_string()),
        }
    }
}
fn serve(p: &Peer, s: TcpStream, extra: &[u8]) -> Seen {
    let raw = Arc::new(Mutex::new(vec![]));
    let mut seen = Seen::default();
    let mut tap = match s.try_clone() {
        Ok(c) => Tap { s: c, raw: raw.clone(), left: None },
        Err(e) => {
            seen.err = e.to_string();
            return seen;
        }
    };
    let mut drain = true;
    match p {
        Peer::Tls(a) | Peer::TlsCut(a, _) => {
            if let Peer::TlsCut(_, n) = p {
                tap.left = Some(*n);
            }
            match a.accept(tap) {
                Ok(mut t) => {
                    seen.tls_ok = true;
                    if let Err(e) = talk(&mut t, &mut seen, extra) {
                        seen.err = e;
                    }
                    let _ = t.shutdown();
                }
                Err(e) => seen.err = e.to_string(),
            }
        }
        Peer::Clear => {
            // whatever comes first decides
            let mut b = [0u8; 4];
            let mut got = 0;
            while got < 4 {
                match tap.read(&mut b[got..]) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => got += n,
                }
            }
            if &b == b"GET " {
                struct Pre<'a>(&'a [u8], &'a mut Tap);
                impl<'a> Read for Pre<'a> {
                    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                        if self.0.is_empty() {
                            return self.1.read(b);
                        }
                        let n = self.0.len().min(b.len());
                        b[..n].copy_from_slice(&self.0[..n]);
                        self.0 = &self.0[n..];
                        Ok(n)
                    }
                }
                impl<'a> Write for Pre<'a> {
                    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                        self.1.write(b)
                    }
                    fn flush(&mut self) -> io::Result<()> {
                        Ok(())
                    }
                }
                if let Err(e) = talk(&mut Pre(&b[..], &mut tap), &mut seen, extra) {
                    seen.err = e;
                }
            } else {
                let _ = tap.write_all(&hs::response());
            }
        }
        Peer::Bytes(b) => {
            let _ = tap.write_all(b);
        }
        Peer::Close => drain = false,
        Peer::CloseAfter(n) => {
            let mut b = vec![0u8; *n];
            let mut got = 0;
            while got < *n {
                match tap.read(&mut b[got..]) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => got += k,
                }
            }
            drain = false;
        }
    }
    if drain {
        let _ = s.shutdown(Shutdown::Write);
        let mut rest = vec![];
        let _ = (&s).read_to_end(&mut rest);
        raw.lock().unwrap().extend_from_slice(&rest);
    }
    seen.raw = std::mem::take(&mut *raw.lock().unwrap());
    seen
}

// ------------------------------------------------------------------ oracles on the raw bytes
/// every byte belongs to a TLS record
fn all_records(raw: &[u8]) -> Result<usize, String> {
    let mut p = 0;
    let mut n = 0;
    while p < raw.len() {
        let r = &raw[p..];
        if !(20..=23).contains(&r[0]) || (r.len() > 1 && r[1] != 3) {
            return Err(format!("byte {} does not start a TLS record: {}", p, hex(&r[..r.len().min(64)])));
        }
        if r.len() < 5 {
            break;
        }
        let l = (r[3] as usize) << 8 | r[4] as usize;
        if l > 16384 + 2048 {
            return Err(format!("record of {} bytes at {}", l, p));
        }
        p += 5 + l;
        n += 1;
    }
    Ok(n)
}
/// the server name in a ClientHello
fn sni(raw: &[u8]) -> Option<String> {
    let mut p = 5 + 4 + 2 + 32;
    let at = |p: usize| raw.get(p).map(|x| *x as usize);
    p += 1 + at(p)?;
    p += 2 + (at(p)? << 8 | at(p + 1)?);
    p += 1 + at(p)?;
    let end = p + 2 + (at(p)? << 8 | at(p + 1)?);
    p += 2;
    while p + 4 <= end {
        let ty = at(p)? << 8 | at(p + 1)?;
        let l = at(p + 2)? << 8 | at(p + 3)?;
        if ty == 0 {
            let n = at(p + 7)? << 8 | at(p + 8)?;
            return raw.get(p + 9..p + 9 + n).map(|b| String::from_utf8_lossy(b).to_string());
        }
        p += 4 + l;
    }
    None
}

// ------------------------------------------------------------------ addresses
#[derive(Clone, Debug)]
struct Addr {
    text: String,
    secure: bool,
    /// the host's registered name, or None for a literal
    name: Option<String>,
    ip: Option<IpAddr>,
    port: u16,
    host_text: String,
}
fn label(r: &mut Rng) -> String {
    let n = r.range(1, 10);
    let mut s = String::new();
    for i in 0..n {
        let c = b"abcdefghijklmnopqrstuvwxyz0123456789-"[r.below(if i == 0 || i == n - 1 { 26 } else { 37 })];
        s.push(c as char);
    }
    if s.starts_with("xn--") || s.get(2..4) == Some("--") {
        return "label".into();
    }
    s
}
fn address(r: &mut Rng) -> Addr {
    let (scheme, secure) = *r.pick(&[("ws", false), ("wss", true), ("wss", true), ("http", false), ("https", true), ("WS", false), ("Wss", true), ("HTTPS", true)]);
    let (host_text, name, ip) = match r.below(10) {
        0 | 1 => {
            let a = Ipv4Addr::from(r.u64() as u32 | 1 << 24);
            (a.to_string(), None, Some(IpAddr::V4(a)))
        }
        2 | 3 => {
            let mut o = [0u8; 16];
            for x in o.iter_mut() {
                if r.chance(1, 2) {
                    *x = r.u64() as u8
                }
            }
            o[0] = 0xfd;
            let a = Ipv6Addr::from(o);
            (format!("[{}]", a), None, Some(IpAddr::V6(a)))
        }
        4 => {
            let (t, n) = *r.pick(&[("b\u{fc}cher.example", "xn--bcher-kva.example"), ("\u{3b1}\u{3b2}.test", "xn--mxac.test"), ("ex%61mple.test", "example.test"), ("localhost", "localhost")]);
            (t.to_string(), Some(n.to_string()), None)
        }
        _ => {
            let n = r.range(1, 4);
            let mut v: Vec<String> = (0..n).map(|_| label(r)).collect();
            if r.chance(1, 6) {
                v.insert(0, r.pick(&["www", "ws", "xn--bcher-kva", "api"]).to_string());
            }
            v.push(r.pick(&["test", "example", "invalid"]).to_string());
            let n = v.join(".");
            let t = if r.chance(1, 4) { n.to_uppercase() } else { n.clone() };
            (t, Some(n), None)
        }
    };
    let default = if secure { 443 } else { 80 };
    let (port_text, port) = match r.below(8) {
        0 | 1 | 2 => (String::new(), default),
        3 => (":".to_string(), default),
        4 => (":80".to_string(), 80),
        5 => (":443".to_string(), 443),
        6 => {
            let p = *r.pick(&[1u16, 65535, 8080, 8443]);
            (format!(":{}", p), p)
        }
        _ => {
            let p = r.range(1, 65535) as u16;
            (format!(":{}", p), p)
        }
    };
    let user = *r.pick(&["", "", "", "user@", "user:pass@", "evil.test:99@", "a%40evil.test@", "evil.test:@"]);
    let tail = *r.pick(&["", "/", "/chat", "/@evil.test:99/", "?x=@evil.test:99", "/p?u=wss://evil.test:98/", "#@evil.test", "/a:1/..//b", "/:443"]);
    Addr { text: format!("{}://{}{}{}{}", scheme, user, host_text, port_text, tail), secure, name, ip, port, host_text }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Face {
    Auto,
    Insecure,
    Secure,
    AAuto,
    AInsecure,
    ASecure,
}
const FACES: [Face; 6] = [Face::Auto, Face::Insecure, Face::Secure, Face::AAuto, Face::AInsecure, Face::ASecure];

/// (message received, or why not)
fn sync_talk<S: websocket_base::stream::Stream>(c: Result<websocket::sync::Client<S>, websocket::WebSocketError>, say: &str) -> Result<OwnedMessage, String> {
    let mut c = c.map_err(|e| format!("connect: {:?}", e))?;
    c.send_message(&Message::text(say)).map_err(|e| format!("send: {:?}", e))?;
    c.recv_message().map_err(|e| format!("receive: {:?}", e))
}
fn async_talk<S>(f: websocket::client::r#async::ClientNew<S>, say: &str) -> Result<Result<OwnedMessage, String>, Fail>
where
    S: websocket::stream::r#async::Stream + Send + 'static,
{
    let say = say.to_string();
    let f = f
        .map_err(|e| format!("connect: {:?}", e))
        .and_then(move |(c, _)| c.send(OwnedMessage::Text(say)).map_err(|e| format!("send: {:?}", e)))
        .and_then(|c| c.into_future().map_err(|e| format!("receive: {:?}", e.0)))
        .and_then(|(m, _)| m.ok_or_else(|| "receive: end".to_string()));
    net::block(f)
}

/// an acceptor for connections to that loopback address
pub fn acceptor(w: &World, ip: IpAddr) -> Result<TlsAcceptor, Fail> {
    TlsAcceptor::new(identity(&leaf_for(&ip.to_string(), Some(ip)), Some(&w.ca), &[])?).map_err(|e| Fail::H(e.to_string()))
}

pub struct World {
    pub ca: Ca,
    pub mid: Ca,
    pub other: Ca,
    dir: String,
}
impl World {
    pub fn new() -> World {
        let ca = new_ca("harness root", None);
        let mid = new_ca("harness intermediate", Some(&ca));
        let other = new_ca("another root", None);
        let dir = format!("{}/wsmon-tls-{}", std::env::temp_dir().display(), std::process::id());
        let _ = std::fs::create_dir_all(format!("{}/certs", dir));
        let f = format!("{}/roots.pem", dir);
        std::fs::write(&f, ca.cert.to_pem().unwrap()).expect("write roots");
        std::env::set_var("SSL_CERT_FILE", &f);
        std::env::set_var("SSL_CERT_DIR", format!("{}/certs", dir));
        World { ca, mid, other, dir }
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(format!("{}/roots.pem", self.dir));
        let _ = std::fs::remove_dir(format!("{}/certs", self.dir));
        let _ = std::fs::remove_dir(&self.dir);
    }
}

fn other_ip(r: &mut Rng, ip: IpAddr) -> IpAddr {
    match ip {
        IpAddr::V4(a) => IpAddr::V4(Ipv4Addr::from(u32::from(a) ^ (1 << r.below(32)))),
        IpAddr::V6(a) => {
            let mut o = a.octets();
            o[r.below(16)] ^= 1 << r.below(8);
            IpAddr::V6(Ipv6Addr::from(o))
        }
    }
}
/// a certificate for the address and whether it is good, with the roots trusted: `custom` means "another root" only
fn certificate(r: &mut Rng, w: &World, a: &Addr, custom: bool) -> Result<(Identity, bool, String), Fail> {
    let host = a.name.clone().unwrap_or_else(|| a.host_text.clone());
    let mut l = leaf_for(&host, a.ip);
    let root = if custom { &w.other } else { &w.ca };
    let wrong_root = if custom { &w.ca } else { &w.other };
    let good = r.chance(2, 5);
    let (issuer, chain, what): (Option<&Ca>, Vec<&X509>, &str);
    if good {
        match r.below(4) {
            0 => {
                l.dns.insert(0, "elsewhere.test".into());
                l.dns.push("last.test".into());
            }
            1 if a.name.is_some() && host.matches('.').count() >= 2 => {
                l.dns = vec![format!("*.{}", host.split_once('.').unwrap().1)];
            }
            2 if a.name.is_some() => l.dns = vec![host.to_uppercase()],
            _ => {}
        }
        if !custom && r.chance(1, 3) {
            issuer = Some(&w.mid);
            chain = vec![&w.mid.cert];
            what = "good, with an intermediate";
        } else {
            issuer = Some(root);
            chain = vec![];
            what = "good";
        }
    } else {
        match r.below(9) {
            0 => {
                issuer = Some(wrong_root);
                chain = vec![&wrong_root.cert];
                what = "untrusted root";
            }
            1 => {
                issuer = None;
                chain = vec![];
                what = "self-signed";
            }
            2 => {
                l.from = "20000101000000Z";
                l.to = "20010101000000Z";
                issuer = Some(root);
                chain = vec![];
                what = "expired";
            }
            3 => {
                l.from = "21400101000000Z";
                issuer = Some(root);
                chain = vec![];
                what = "not yet valid";
            }
            4 => {
                l.client_only = true;
                issuer = Some(root);
                chain = vec![];
                what = "not for servers";
            }
            5 if !custom => {
                issuer = Some(&w.mid);
                chain = vec![];
                what = "intermediate missing";
            }
            _ => {
                issuer = Some(root);
                chain = vec![];
                what = "for another host";
                match (a.ip, &a.name) {
                    (Some(ip), _) => match r.below(3) {
                        0 => l.ips = vec![other_ip(r, ip)],
                        1 => {
                            l.ips = vec![];
                            l.dns = vec![ip.to_string()];
                        }
                        _ => {
                            l.ips = vec![];
                            l.dns = vec!["elsewhere.test".into()];
                        }
                    },
                    (None, _) => {
                        l.dns = vec![match r.below(6) {
                            0 => "elsewhere.test".into(),
                            1 => format!("x{}", host),
                            2 => format!("{}.evil.test", host),
                            3 => format!("*.{}", host),
                            4 => format!("sub.{}", host),
                            _ => match host.split_once('.') {
                                Some((_, rest)) => rest.to_string(),
                                None => "parent".into(),
                            },
                        }];
                    }
                }
            }
        }
    }
    let id = identity(&l, issuer, &chain)?;
    Ok((id, good, format!("{} {:?} {:?}", what, l.dns, l.ips)))
}

fn case(c: &mut Case, w: &World) -> Res {
    let r = &mut c.rng;
    let a = address(r);
    let face = *r.pick(&FACES);
    let secure = match face {
        Face::Auto | Face::AAuto => a.secure,
        Face::Secure | Face::ASecure => true,
        _ => false,
    };
    // what the client trusts
    let given = r.below(3);
    let cfg = || -> Result<Option<TlsConnector>, Fail> {
        Ok(match given {
            0 => None,
            1 => Some(connector(&w.ca)?),
            _ => Some({
                let c = Certificate::from_der(&w.other.cert.to_der().unwrap()).map_err(|e| Fail::H(e.to_string()))?;
                TlsConnector::builder().disable_built_in_roots(true).add_root_certificate(c).build().map_err(|e| Fail::H(e.to_string()))?
            }),
        })
    };
    // the network
    let mut n = Net::default();
    let mut resolves = true;
    let mut answering = true;
    let mut ips: Vec<IpAddr> = vec![];
    if let Some(h) = &a.name {
        let k = r.range(1, 3);
        for _ in 0..k {
            let mut o = [0u8; 16];
            o.copy_from_slice(&r.bytes(16));
            o[0] = 0xfd;
            ips.push(if r.chance(1, 2) { IpAddr::V4(Ipv4Addr::from(r.u64() as u32 | 1 << 24)) } else { IpAddr::V6(Ipv6Addr::from(o)) });
        }
        if r.chance(1, 20) {
            resolves = false;
        } else {
            n.names.push((h.clone(), ips.clone()));
        }
    } else {
        ips.push(a.ip.unwrap());
    }
    match r.below(12) {
        0 => {
            n.refuse = ips.clone();
            answering = false;
        }
        1 if ips.len() > 1 => n.refuse = vec![ips[0]],
        _ => {}
    }
    // the peer
    let (id, good, cert) = certificate(r, w, &a, given == 2)?;
    let mut b = TlsAcceptor::builder(id);
    let old = r.chance(1, 2);
    if old {
        b.max_protocol_version(Some(Protocol::Tlsv12));
    }
    let acc = b.build().map_err(|e| Fail::H(format!("acceptor: {}", e)))?;
    let likely = if secure { 7 } else { 2 };
    let (peer, pname) = match r.below(16) {
        0 => (Peer::Close, "close".to_string()),
        1 => {
            let k = r.range(1, 100);
            (Peer::CloseAfter(k), format!("close after {}", k))
        }
        2 => {
            let k = r.range(1, 300);
            (Peer::Bytes(r.bytes(k)), "garbage".into())
        }
        3 => (Peer::Bytes(hs::response()), "101 at once".into()),
        4 => (Peer::Bytes(b"\x15\x03\x03\x00\x02\x02\x28".to_vec()), "alert".into()),
        5 => {
            let k = r.range(0, 1200);
            (Peer::TlsCut(acc.clone(), k), format!("TLS cut after {}", k))
        }
        x => {
            if x < 6 + likely {
                (Peer::Tls(acc.clone()), "TLS".into())
            } else {
                (Peer::Clear, "clear".into())
            }
        }
    };
    let say = format!("from client {}", r.u64());
    let tell = format!("from server {}", r.u64());
    let mut extra = vec![];
    extra.push(0x81);
    extra.push(tell.len() as u8);
    extra.extend_from_slice(tell.as_bytes());
    c.note(format!("{:?} {} (roots {}), certificate {}{}, peer {}, refusing {:?}, resolves {}", face, a.text, given, cert, if old { " TLS1.2" } else { "" }, pname, n.refuse, resolves));
    let (tx, rx): (Sender<TcpStream>, Receiver<TcpStream>) = channel();
    n.to_peer = Some(tx);
    let p2 = peer.clone();
    let ex2 = extra.clone();
    let cfgv = cfg()?;
    let th = std::thread::spawn(move || {
        let mut v = vec![];
        while let Ok(s) = rx.recv() {
            v.push(serve(&p2, s, &ex2));
        }
        v
    });
    NET.with(|x| *x.borrow_mut() = Some(n));
    let out = guard(|| {
        let mut b = match ClientBuilder::new(&a.text) {
            Ok(b) => b,
            Err(e) => viol!("address refused: {:?}", e),
        };
        Ok(match face {
            Face::Auto => sync_talk(b.connect(cfgv), &say),
            Face::Insecure => sync_talk(b.connect_insecure(), &say),
            Face::Secure => sync_talk(b.connect_secure(cfgv), &say),
            Face::AAuto => async_talk(b.async_connect(cfgv), &say)?,
            Face::AInsecure => async_talk(b.async_connect_insecure(), &say)?,
            Face::ASecure => async_talk(b.async_connect_secure(cfgv), &say)?,
        })
    });
    let n = NET.with(|x| x.borrow_mut().take()).unwrap();
    let (asked, dests) = (n.asked.clone(), n.dests.clone());
    drop(n);
    let seen = th.join().map_err(|_| Fail::H("peer panicked".into()))?;
    let out = out?;
    c.note(format!("outcome {:?}; asked {:?}; destinations {:?}; peer saw {}", out, asked, dests, seen.iter().map(|s| format!("[{} raw bytes, tls {}, head {}, err {:?}]", s.raw.len(), s.tls_ok, s.head.is_some(), s.err)).collect::<String>()));
    // ---- destination
    for x in &asked {
        ensure!(a.name.as_ref().map_or(false, |h| h.eq_ignore_ascii_case(x)) || a.ip.map_or(false, |i| x.parse() == Ok(i)), "resolved {:?}, not the host of {}", x, a.text);
    }
    for d in &dests {
        ensure!(ips.contains(&d.ip()) && resolves, "connected to {}, not to the host of {}", d, a.text);
        ensure!(d.port() == a.port, "connected to port {}, the address {} says {}", d.port(), a.text, a.port);
    }
    if !resolves {
        ensure!(out.is_err(), "connected though the host does not resolve");
        ensure!(seen.is_empty(), "reached a peer though the host does not resolve");
        c.ev("unresolvable", 1);
        c.eval(hash_s(&a.text));
        return Ok(());
    }
    ensure!(!dests.is_empty() || out.is_err(), "succeeded without connecting");
    ensure!(!dests.is_empty(), "never connected anywhere: {:?}", out);
    if !answering {
        ensure!(out.is_err(), "succeeded though every connection was refused");
        c.ev("refused", 1);
    }
    // a refused first address ends an attempt; whether others are tried is not part of this
    if seen.is_empty() {
        ensure!(out.is_err(), "succeeded without a peer");
        c.eval(hash_s(&a.text));
        return Ok(());
    }
    ensure!(seen.len() == 1 || out.is_err(), "{} connections made", seen.len());
    // ---- encryption
    for s in &seen {
        if secure {
            match all_records(&s.raw) {
                Ok(n) => c.ev("tls_records", n as u64),
                Err(e) => viol!("sent something other than TLS: {}", e),
            }
            if s.raw.len() > 200 {
                let name = sni(&s.raw);
                if let (Some(n), Some(h)) = (&name, &a.name) {
                    ensure!(n.eq_ignore_ascii_case(h), "TLS server name {:?} for {}", n, a.text);
                    c.ev("server_names", 1);
                }
            }
            if !good {
                ensure!(s.head_bytes.is_empty() && s.app.is_empty(), "sent {:?} to a peer with a bad certificate ({})", trunc(&String::from_utf8_lossy(&s.head_bytes), 100), cert);
            }
        } else {
            ensure!(!(s.raw.len() >= 2 && s.raw[0] == 0x16 && s.raw[1] == 3), "attempted TLS with a plain address: {}", hex(&s.raw[..s.raw.len().min(16)]));
            ensure!(b"GET ".starts_with(&s.raw[..s.raw.len().min(4)]), "first bytes in clear are {:?}", trunc(&String::from_utf8_lossy(&s.raw), 60));
            c.ev("clear_bytes", s.raw.len() as u64);
        }
    }
    let full = match &peer {
        Peer::Tls(_) => secure && good,
        Peer::Clear => !secure,
        _ => false,
    };
    if full {
        match &out {
            Ok(OwnedMessage::Text(t)) => ensure!(*t == tell, "received {:?}, the peer said {:?}", t, tell),
            x => viol!("a good peer gave {:?}", x),
        }
        let s = &seen[seen.len() - 1];
        match wire::parse_sent(&s.app) {
            Ok(v) if !v.is_empty() => ensure!(v[0].payload == say.as_bytes(), "peer received {:?}", v[0].payload),
            x => viol!("peer received {:?}", x.map(|v| v.len())),
        }
        c.ev(if secure { "secure_conversations" } else { "plain_conversations" }, 1);
        if a.ip.is_some() && secure {
            c.ev("secure_ip_conversations", 1);
        }
    } else {
        // a cut TLS server may have been cut only after it said everything
        let may = matches!(peer, Peer::TlsCut(..)) && secure && good;
        if !may {
            ensure!(out.is_err(), "{:?} with peer {} and certificate {}", out, pname, cert);
        }
        c.ev("failed_conversations", 1);
        if secure && !good && matches!(peer, Peer::Tls(_)) {
            c.ev("bad_certificates", 1);
            c.seen("certificate_kinds", hash_s(cert.split('[').next().unwrap()));
        }
    }
    c.ev(&format!("{:?}", face), 1);
    c.seen("destinations", hash_s(&format!("{:?}", dests)));
    c.eval(hash_s(&format!("{:?}{}{}{}", face, a.text, cert, pname)));
    c.sample(|| format!("{:?} {} with certificate {}, peer {} -> {:?}, destinations {:?}", face, a.text, cert, pname, out, dests));
    Ok(())
}

/// connecting on a stream the application made goes nowhere else
fn on_stream(c: &mut Case) -> Res {
    let a = address(&mut c.rng);
    let asy = c.rng.chance(1, 2);
    c.note(format!("{} async {}", a.text, asy));
    NET.with(|x| *x.borrow_mut() = Some(Net::default()));
    let out = guard(|| {
        let mut b = ClientBuilder::new(&a.text).map_err(|e| Fail::V(format!("address refused: {:?}", e)))?.key(hs::KEY);
        let s = crate::stream::Scripted::new(vec![crate::stream::Step::Data(hs::response())], crate::stream::End::Eof);
        Ok(if asy {
            let s = s.asy();
            net::block(b.async_connect_on(s))?.map(|_| ()).map_err(|e| format!("{:?}", e))
        } else {
            b.connect_on(s).map(|_| ()).map_err(|e| format!("{:?}", e))
        })
    });
    let n = NET.with(|x| x.borrow_mut().take()).unwrap();
    let out = out?;
    ensure!(out.is_ok(), "handshake on a given stream: {:?}", out);
    let d: BTreeSet<_> = n.dests.iter().collect();
    ensure!(d.is_empty() && n.asked.is_empty(), "resolved {:?} and connected to {:?} though a stream was given", n.asked, d);
    c.ev("given_streams", 1);
    c.eval(hash_s(&a.text));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("distinct (interface, address, certificate, peer behaviour) combinations; destinations recorded at the connect call, raw bytes recorded at the peer");
    x.assume("OpenSSL's certificate verification is trusted; the harness's root is made the system's only root through SSL_CERT_FILE");
    x.assume("the stand-ins for connect and getaddrinfo see every destination (all interfaces resolve and connect on the calling thread)");
    let w = World::new();
    x.run("connect", x.q(6_000, 120_000), |c| case(c, &w));
    x.run("given_stream", x.q(2_000, 20_000), |c| on_stream(c));
    x.need("secure_conversations", 300);
    x.need("plain_conversations", 300);
    x.need("bad_certificates", 300);
    x.need("secure_ip_conversations", 30);
    x.need("server_names", 300);
    for f in FACES.iter() {
        x.need(&format!("{:?}", f), 300);
    }
}
