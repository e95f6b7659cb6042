//! C16: the client sends a correct handshake request.
use crate::core::*;
use crate::c20;
use crate::crypto::{b64, b64dec};
use crate::exec::{drive, D};
use crate::gen;
use crate::heads;
use crate::hs;
use crate::net;
use crate::srv::{ext, mk_ext, tok};
use crate::stream::*;
use hyper::header::{Cookie, Headers, Referer, UserAgent};
use std::collections::HashSet;
use std::sync::Mutex;
use websocket::client::builder::Url;
use websocket::header::{Origin, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};
use websocket::ClientBuilder;

type Ext = (String, Vec<(String, Option<String>)>);
#[derive(Clone, Debug)]
pub struct Addr {
    pub text: String,
    pub host: String,
    pub target: String,
    pub auth: Option<String>,
    pub secure: bool,
    pub host_field: String,
}
#[derive(Clone, Debug, Default)]
struct Model {
    protocols: Vec<String>,
    extensions: Vec<Ext>,
    /// an empty list was asked for: a field without elements may or may not be written
    empty_p: bool,
    empty_e: bool,
    key: Option<[u8; 16]>,
    version: Option<String>,
    origin: Option<String>,
    /// lower-case name -> values
    others: Vec<(String, Vec<Vec<u8>>)>,
}

fn host(r: &mut Rng) -> (String, String) {
    match r.below(10) {
        0 => ("127.0.0.1".into(), "127.0.0.1".into()),
        1 => {
            let s = format!("{}.{}.{}.{}", r.range(1, 223), r.below(256), r.below(256), r.below(256));
            (s.clone(), s)
        }
        2 => {
            // no v4-mapped addresses: they have two spellings
            let mut g = [0u16; 8];
            for x in g.iter_mut() {
                *x = if r.chance(1, 2) { 0 } else { r.u64() as u16 };
            }
            g[0] = 0x2001;
            let a = std::net::Ipv6Addr::from(g).to_string();
            (format!("[{}]", a), format!("[{}]", a))
        }
        3 => ("[::1]".into(), "[::1]".into()),
        4 => ("bücher.example".into(), "xn--bcher-kva.example".into()),
        5 => ("ExAmple.COM".into(), "example.com".into()),
        6 => ("localhost".into(), "localhost".into()),
        7 => {
            let s = format!("{}.example.", heads::alnum(r, 8).to_lowercase().replace(['_', '-'], "a"));
            let s = format!("h{}", s);
            (s.clone(), s)
        }
        _ => {
            let n = r.range(1, 4);
            let s: Vec<String> = (0..n).map(|_| format!("h{}", heads::alnum(r, 8).to_lowercase().replace(['_', '-'], "x"))).collect();
            let s = s.join(".");
            (s.clone(), s)
        }
    }
}
fn segment(r: &mut Rng) -> (String, String) {
    match r.below(8) {
        0 => ("a b".into(), "a%20b".into()),
        1 => ("%2F%41".into(), "%2F%41".into()),
        2 => ("ü".into(), "%C3%BC".into()),
        3 => ("a:b@c;d=e,f".into(), "a:b@c;d=e,f".into()),
        4 => ("".into(), "".into()),
        5 => ("...~_-".into(), "...~_-".into()),
        _ => {
            let s = heads::alnum(r, 12);
            (s.clone(), s)
        }
    }
}
pub fn addr(r: &mut Rng, hp: Option<(String, u16)>) -> Addr {
    let secure = hp.is_none() && r.chance(1, 2);
    addr_in(r, hp, secure)
}
fn addr_in(r: &mut Rng, hp: Option<(String, u16)>, secure: bool) -> Addr {
    let scheme = if secure { *r.pick(&["wss", "WSS", "wss"]) } else { *r.pick(&["ws", "Ws", "ws"]) };
    let (htext, hname) = match &hp {
        Some((h, _)) => (h.clone(), h.clone()),
        None => host(r),
    };
    let def = if secure { 443 } else { 80 };
    let port = match &hp {
        Some((_, p)) => Some(*p),
        None => match r.below(6) {
            0 | 1 => None,
            2 => Some(80),
            3 => Some(443),
            4 => Some(*r.pick(&[1u16, 8080, 65535, 8443, 79, 81, 444, 8000])),
            _ => Some(r.range(1, 65535) as u16),
        },
    };
    let (mut utext, mut auth) = (String::new(), None);
    if r.chance(1, 4) {
        let u = heads::alnum(r, 10);
        match r.below(3) {
            0 => {
                utext = format!("{}@", u);
                auth = Some(format!("Basic {}", b64(format!("{}:", u).as_bytes())));
            }
            k => {
                let p = heads::alnum(r, 20);
                let u = if k == 1 || r.chance(3, 4) { u } else { String::new() };
                utext = format!("{}:{}@", u, p);
                auth = Some(format!("Basic {}", b64(format!("{}:{}", u, p).as_bytes())));
            }
        }
    }
    let (mut ptext, mut ppath) = (String::new(), String::new());
    let n = r.below(5);
    for _ in 0..n {
        let (a, b) = segment(r);
        ptext.push('/');
        ppath.push('/');
        ptext.push_str(&a);
        ppath.push_str(&b);
    }
    if ppath.is_empty() {
        ppath.push('/');
    }
    let mut q = String::new();
    if r.chance(1, 2) {
        q.push('?');
        for i in 0..r.below(4) {
            if i > 0 {
                q.push('&');
            }
            q.push_str(&heads::alnum(r, 8));
            if r.chance(2, 3) {
                q.push('=');
                q.push_str(*r.pick(&["x", "%20", "a/b", "?", "1+2", "", "a=b"]));
            }
        }
        if r.chance(1, 30) {
            q.push_str(&"z".repeat(r.range(100, 6000)));
        }
    }
    let frag = if r.chance(1, 6) { *r.pick(&["#frag", "#", "#/x?y"]) } else { "" };
    let text = format!("{}://{}{}{}{}{}{}", scheme, utext, htext, port.map(|p| format!(":{}", p)).unwrap_or_default(), ptext, q, frag);
    let host_field = match port {
        Some(p) if p != def => format!("{}:{}", hname, p),
        _ => hname.clone(),
    };
    Addr { text, host: hname, target: format!("{}{}", ppath, q), auth, secure, host_field }
}
fn set_other(m: &mut Model, n: &str, v: Vec<Vec<u8>>) {
    let n = n.to_ascii_lowercase();
    m.others.retain(|x| x.0 != n);
    m.others.push((n, v));
}
fn op<'u>(c: &mut Case, b: ClientBuilder<'u>, m: &mut Model, log: &mut String) -> ClientBuilder<'u> {
    let r = &mut c.rng;
    let k = r.below(19);
    log.push_str(&format!(" {}", k));
    match k {
        0 | 1 => {
            let t = tok(r, 12);
            m.protocols.push(t.clone());
            if r.chance(1, 2) {
                b.add_protocol(t)
            } else {
                b.add_protocol(t.as_str())
            }
        }
        2 => {
            let n = if r.chance(1, 40) { r.range(50, 300) } else { r.below(4) };
            let v: Vec<String> = (0..n).map(|_| tok(r, 8)).collect();
            m.empty_p |= v.is_empty();
            m.protocols.extend(v.clone());
            b.add_protocols(v)
        }
        3 => {
            m.protocols.clear();
            m.empty_p = false;
            b.clear_protocols()
        }
        4 | 5 => {
            let e = ext(r);
            m.extensions.push(e.clone());
            b.add_extension(mk_ext(&e))
        }
        6 => {
            let n = if r.chance(1, 40) { r.range(30, 120) } else { r.below(3) };
            let v: Vec<Ext> = (0..n).map(|_| ext(r)).collect();
            m.empty_e |= v.is_empty();
            m.extensions.extend(v.clone());
            b.add_extensions(v.iter().map(mk_ext).collect::<Vec<_>>())
        }
        7 => {
            m.extensions.clear();
            m.empty_e = false;
            b.clear_extensions()
        }
        8 => {
            let k = heads::b16(r);
            m.key = Some(k);
            b.key(k)
        }
        9 => {
            m.key = None;
            b.clear_key()
        }
        10 => {
            if r.chance(1, 2) {
                m.version = Some("13".into());
                b.version(WebSocketVersion::WebSocket13)
            } else {
                let v = r.range(0, 255).to_string();
                m.version = Some(v.clone());
                b.version(WebSocketVersion::Unknown(v))
            }
        }
        11 => {
            m.version = None;
            b.clear_version()
        }
        12 => {
            let o = heads::value(r, 20);
            m.origin = Some(o.clone());
            b.origin(o)
        }
        13 => {
            m.origin = None;
            b.clear_origin()
        }
        14 | 15 => {
            let mut displaced = false;
            let mut h = Headers::new();
            let n = r.range(1, 4);
            for i in 0..n {
                let name = match r.below(5) {
                    0 => "User-Agent".to_string(),
                    1 => "Referer".to_string(),
                    2 => format!("X-Rep-{}", r.below(3)),
                    _ => format!("X-{}{}", i, heads::alnum(r, 8)),
                };
                let vals: Vec<Vec<u8>> = (0..if name.starts_with("X-") && r.chance(1, 4) { 2 } else { 1 }).map(|_| {
                    let max = if r.chance(1, 150) { 30_000 } else { 30 };
                    heads::value(r, max).into_bytes()
                }).collect();
                h.set_raw(name.clone(), vals.clone());
                set_other(m, &name, vals);
            }
            if r.chance(1, 3) {
                let v = heads::alnum(r, 12);
                h.set(UserAgent(v.clone()));
                set_other(m, "User-Agent", vec![v.into_bytes()]);
            }
            if r.chance(1, 4) {
                // what the handshake itself needs cannot be displaced
                let (n, v) = *r.pick(&[("Host", "evil.example"), ("Connection", "close"), ("Upgrade", "h2c"), ("Connection", "keep-alive, Upgrade"), ("HOST", "x")]);
                h.set_raw(n, vec![v.as_bytes().to_vec()]);
                displaced = true;
            }
            if m.version.is_none() && r.chance(1, 8) {
                h.set_raw("Sec-WebSocket-Version", vec![r.pick(&[&b"8"[..], b"14", b"x"]).to_vec()]);
                displaced = true;
            }
            if m.key.is_none() && r.chance(1, 8) {
                h.set_raw("Sec-WebSocket-Key", vec![r.pick(&[&b"8"[..], b"AAAA", b"dGhlIHNhbXBsZSBub25jZQ=="]).to_vec()]);
                displaced = true;
            }
            if displaced {
                c.ev("displacement_attempts", 1);
            }
            b.custom_headers(&h)
        }
        16 => {
            m.others.retain(|x| x.0 != "user-agent");
            b.clear_header::<UserAgent>()
        }
        17 => match r.below(4) {
            0 => {
                m.others.retain(|x| x.0 != "referer");
                b.clear_header::<Referer>()
            }
            1 => {
                m.origin = None;
                b.clear_header::<Origin>()
            }
            2 => {
                m.protocols.clear();
                m.empty_p = false;
                b.clear_header::<WebSocketProtocol>()
            }
            _ => {
                m.extensions.clear();
                m.empty_e = false;
                b.clear_header::<WebSocketExtensions>()
            }
        },
        _ => match r.below(3) {
            0 => b.clear_header::<Cookie>(),
            1 => {
                // a cleared key is a key nobody fixed
                m.key = None;
                b.clear_header::<WebSocketKey>()
            }
            _ => {
                m.version = None;
                b.clear_header::<WebSocketVersion>()
            }
        },
    }
}
static KEYS: Mutex<Option<HashSet<String>>> = Mutex::new(None);
fn judge(who: &str, a: &Addr, m: &Model, w: &[u8]) -> Result<String, Fail> {
    let show = || format!("{} for {}", trunc(&String::from_utf8_lossy(w), 2500), a.text);
    let h = match hs::parse_head(w) {
        Err(e) => viol!("{}: the request is malformed ({}): {}", who, e, show()),
        Ok(None) => viol!("{}: the request has no end: {}", who, show()),
        Ok(Some(h)) => h,
    };
    ensure!(h.len == w.len(), "{}: {} bytes follow the request: {}", who, w.len() - h.len, show());
    ensure!(h.first == format!("GET {} HTTP/1.1", a.target), "{}: request line {:?} instead of target {:?} of {}", who, h.first, a.target, a.text);
    let one = |n: &str| -> Result<String, Fail> {
        let v = h.all(n);
        ensure!(v.len() == 1, "{}: {} fields named {}: {}", who, v.len(), n, show());
        Ok(v[0].to_string())
    };
    ensure!(one("Host")? == a.host_field, "{}: Host is {:?}, should be {:?}: {}", who, one("Host")?, a.host_field, a.text);
    ensure!(one("Upgrade")?.eq_ignore_ascii_case("websocket"), "{}: Upgrade {:?}", who, one("Upgrade")?);
    ensure!(one("Connection")?.eq_ignore_ascii_case("upgrade"), "{}: Connection {:?}", who, one("Connection")?);
    let ver = m.version.clone().unwrap_or("13".into());
    ensure!(one("Sec-WebSocket-Version")? == ver, "{}: version {:?} instead of {}", who, one("Sec-WebSocket-Version")?, ver);
    let key = one("Sec-WebSocket-Key")?;
    match b64dec(&key) {
        Some(k) if k.len() == 16 && b64(&k) == key => {}
        _ => viol!("{}: the key {:?} is not the base64 of 16 bytes", who, key),
    }
    if let Some(k) = m.key {
        ensure!(key == b64(&k), "{}: key {} sent, fixed to {}", who, key, b64(&k));
    } else {
        let fresh = KEYS.lock().unwrap().get_or_insert_with(HashSet::new).insert(key.clone());
        ensure!(fresh, "{}: the key {} was already used by an earlier connection attempt", who, key);
    }
    ensure!(h.list("Sec-WebSocket-Protocol") == m.protocols, "{}: protocols {:?} sent, asked for {:?}", who, h.list("Sec-WebSocket-Protocol"), m.protocols);
    ensure!(m.empty_p || !m.protocols.is_empty() || h.all("Sec-WebSocket-Protocol").is_empty(), "{}: a protocol field although none was asked for", who);
    let e: Vec<Ext> = h.list("Sec-WebSocket-Extensions").iter().map(|e| crate::c14::parse_ext(e)).collect();
    ensure!(e == m.extensions, "{}: extensions {:?} sent, asked for {:?}", who, e, m.extensions);
    ensure!(m.empty_e || !m.extensions.is_empty() || h.all("Sec-WebSocket-Extensions").is_empty(), "{}: an extension field although none was asked for", who);
    let o: Vec<String> = h.all("Origin").iter().map(|s| s.to_string()).collect();
    let wo: Vec<String> = m.origin.iter().cloned().collect();
    ensure!(o == wo, "{}: origin {:?} sent, asked for {:?}", who, o, wo);
    let au: Vec<String> = h.all("Authorization").iter().map(|s| s.to_string()).collect();
    let wa: Vec<String> = a.auth.iter().cloned().collect();
    ensure!(au == wa, "{}: Authorization {:?} sent, the address asks for {:?}: {}", who, au, wa, a.text);
    let rest = crate::c14::grouped_head(
        &h,
        &["Host", "Upgrade", "Connection", "Sec-WebSocket-Version", "Sec-WebSocket-Key", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Origin", "Authorization"],
    );
    let mut want: Vec<(String, Vec<String>)> = m.others.iter().map(|(n, v)| (n.clone(), v.iter().map(|b| String::from_utf8_lossy(b).trim().to_string()).collect())).collect();
    want.sort();
    ensure!(rest == want, "{}: other fields {:?} sent, asked for {:?}", who, rest, want);
    Ok(key)
}
fn getters(b: &ClientBuilder, m: &Model) -> Res {
    let p = b.get_header::<WebSocketProtocol>().map(|p| p.0.clone()).unwrap_or_default();
    ensure!(p == m.protocols, "get_header::<WebSocketProtocol> {:?}, model {:?}", p, m.protocols);
    let e: Vec<Ext> = b.get_header::<WebSocketExtensions>().map(|p| p.0.iter().map(crate::srv::un_ext).collect()).unwrap_or_default();
    ensure!(e == m.extensions, "get_header::<WebSocketExtensions> {:?}, model {:?}", e, m.extensions);
    let o = b.get_header::<Origin>().map(|o| o.0.clone());
    ensure!(o == m.origin, "get_header::<Origin> {:?}, model {:?}", o, m.origin);
    let u = b.get_header::<UserAgent>().map(|o| o.0.clone().into_bytes());
    let w = m.others.iter().find(|x| x.0 == "user-agent").map(|x| x.1[0].clone());
    ensure!(u == w, "get_header::<UserAgent> {:?}, model {:?}", u, w);
    Ok(())
}
fn sync_req(c: &mut Case, b: &mut ClientBuilder) -> Result<Vec<u8>, Fail> {
    let (wp, fp) = gen::wplan(&mut c.rng, false);
    guard(|| {
        let s = Scripted::new(vec![], End::Eof).wplan(wp, fp);
        let r = b.connect_on(s.clone());
        ensure!(r.is_err(), "a client although nothing was answered");
        Ok(s.out())
    })
}
fn async_req(c: &mut Case, b: ClientBuilder) -> Result<Vec<u8>, Fail> {
    let (wp, fp) = gen::wplan(&mut c.rng, true);
    guard(|| {
        let s = Scripted::new(vec![], End::Eof).wplan(wp, fp).asy();
        match drive(b.async_connect_on(s.clone()), &[s.clone()])? {
            D::Err(_) => {}
            D::Done(_) => viol!("a client although nothing was answered"),
            D::Idle => viol!("async_connect_on is stalled"),
        }
        Ok(s.out())
    })
}
fn memory(c: &mut Case) -> Res {
    let a = addr(&mut c.rng, None);
    let mut m = Model::default();
    let url = match Url::parse(&a.text) {
        Ok(u) => u,
        Err(e) => hfail!("generated address {:?}: {}", a.text, e),
    };
    let mut b = if c.rng.chance(1, 2) {
        ClientBuilder::from_url(&url)
    } else {
        match ClientBuilder::new(&a.text) {
            Ok(b) => b,
            Err(e) => viol!("ClientBuilder::new({:?}): {}", a.text, e),
        }
    };
    let mut log = String::new();
    let rounds = c.rng.range(1, 4);
    let mut last = None;
    for round in 0..rounds {
        let n = if c.rng.chance(1, 6) { 0 } else { c.rng.below(10) };
        for _ in 0..n {
            b = op(c, b, &mut m, &mut log);
        }
        log.push_str(" |");
        c.note(format!("{} ops{} model {:?}", a.text, log, m));
        getters(&b, &m)?;
        // a copy of the builder asks for the same
        let copy = b.clone();
        let w = async_req(c, copy)?;
        let k1 = judge("async_connect_on", &a, &m, &w)?;
        let tries = c.rng.range(1, 2);
        for _ in 0..tries {
            let w = sync_req(c, &mut b)?;
            let k2 = judge("connect_on", &a, &m, &w)?;
            if m.key.is_none() {
                ensure!(k1 != k2 && last.as_ref() != Some(&k2), "the key {} was used twice", k2);
            }
            last = Some(k2);
            c.ev("sync_requests", 1);
            if round > 0 {
                c.ev("requests_from_a_reused_builder", 1);
            }
        }
        c.ev("async_requests", 1);
        c.eval(hash(&w) ^ hash_s(&a.text));
    }
    c.ev(if a.secure { "secure_addresses" } else { "plain_addresses" }, 1);
    if a.auth.is_some() {
        c.ev("addresses_with_credentials", 1);
    }
    c.sample(|| format!("{} ops{}", trunc(&a.text, 200), log));
    Ok(())
}
const WAYS: [&str; 10] = [
    "connect_insecure",
    "connect(None), in clear",
    "async_connect_insecure",
    "async_connect(None), in clear",
    "connect(Some), secure",
    "connect_secure",
    "async_connect(Some), secure",
    "async_connect_secure",
    "connect(None), secure",
    "async_connect(None), secure",
];
fn one_socket(c: &mut Case, a: &Addr, b: &mut ClientBuilder<'static>, m: &Model, l: std::net::TcpListener, la: std::net::SocketAddr, w: &c20::World, which: usize) -> Result<String, Fail> {
    let acc = if a.secure { Some(c20::acceptor(w, la.ip())?) } else { None };
    fn serve<S: std::io::Read + std::io::Write>(mut s: S) -> Result<Vec<u8>, String> {
        let (h, rest) = net::read_head(&mut s)?;
        let head = hs::parse_head(&h)?.ok_or("incomplete")?;
        let key = head.all("Sec-WebSocket-Key").first().map(|s| s.to_string()).ok_or("no key")?;
        s.write_all(&hs::response_with_key(&key)).map_err(|e| e.to_string())?;
        let mut all = h;
        all.extend(rest);
        Ok(all)
    }
    let peer = std::thread::spawn(move || -> Result<(Vec<u8>, std::net::TcpListener), String> {
        let (s, _) = l.accept().map_err(|e| e.to_string())?;
        net::guard_sock(&s);
        let v = match acc {
            None => serve(s)?,
            Some(a) => serve(a.accept(s).map_err(|e| format!("TLS: {}", e))?)?,
        };
        Ok((v, l))
    });
    let e = |e: websocket::WebSocketError| format!("{:?}", e);
    let trust = c20::connector(&w.ca)?;
    let r: Result<(), String> = match which {
        0 => guard(|| Ok(b.connect_insecure().map(|_| ()).map_err(e)))?,
        1 | 8 => guard(|| Ok(b.connect(None).map(|_| ()).map_err(e)))?,
        2 => guard(|| net::block(b.clone().async_connect_insecure()))?.map(|_| ()).map_err(e),
        3 | 9 => guard(|| net::block(b.clone().async_connect(None)))?.map(|_| ()).map_err(e),
        4 => guard(|| Ok(b.connect(Some(trust)).map(|_| ()).map_err(e)))?,
        5 => guard(|| Ok(b.connect_secure(Some(trust)).map(|_| ()).map_err(e)))?,
        6 => guard(|| net::block(b.clone().async_connect(Some(trust))))?.map(|_| ()).map_err(e),
        _ => guard(|| net::block(b.clone().async_connect_secure(Some(trust))))?.map(|_| ()).map_err(e),
    };
    let who = WAYS[which];
    let w = match peer.join().map_err(|_| Fail::H("peer thread".into()))? {
        Ok((w, _)) => w,
        Err(e) => viol!("{}: no complete request arrived ({}), outcome {:?}", who, e, r),
    };
    let key = judge(who, a, m, &w)?;
    if let Err(e) = r {
        viol!("{}: a correct answer was refused: {}", who, e);
    }
    c.ev("socket_requests", 1);
    if a.secure {
        c.ev("secure_socket_requests", 1);
    }
    c.eval(hash(&w));
    Ok(key)
}
/// real connections, in clear and over TLS, several from one builder
fn sockets(c: &mut Case, w: &c20::World) -> Res {
    let (l, la) = net::listener()?;
    let secure = c.rng.chance(2, 3);
    let a = addr_in(&mut c.rng, Some((la.ip().to_string(), la.port())), secure);
    let mut m = Model::default();
    let mut b = ClientBuilder::new(&a.text).map_err(|e| Fail::H(e.to_string()))?;
    let mut log = String::new();
    let rounds = c.rng.range(1, 3);
    for round in 0..rounds {
        for _ in 0..c.rng.below(6) {
            b = op(c, b, &mut m, &mut log);
        }
        let which = if secure { c.rng.range(4, 9) } else { c.rng.below(4) };
        log.push_str(&format!(" |{}|", WAYS[which]));
        c.note(format!("{} ops{} model {:?}", a.text, log, m));
        getters(&b, &m)?;
        let l = l.try_clone().map_err(|e| Fail::H(e.to_string()))?;
        one_socket(c, &a, &mut b, &m, l, la, w, which)?;
        if round > 0 {
            c.ev("socket_requests_from_a_reused_builder", 1);
        }
    }
    c.sample(|| format!("{} ops{}", trunc(&a.text, 200), log));
    Ok(())
}
pub fn run(x: &Ctx) {
    x.scale(4);
    x.rule("a case generates an address with known target, host field and credentials, and a sequence of builder operations mirrored in a model; after every few operations it connects through the asynchronous interface (copy of the builder) and, repeatedly, the blocking one under short writes, and judges every byte written with an independent head parser against the model; keys of all attempts in the run are collected and must differ; distinct by request and address");
    x.assume("user names and passwords in addresses are unreserved characters (what percent-encoded credentials mean is left open); a list set to be empty may or may not be written as an empty field");
    x.run("memory", x.q(60_000, 1_500_000), memory);
    let w = c20::World::new();
    x.run_t("sockets", x.q(700, 8_000), 8, |c| sockets(c, &w));
    x.need("sync_requests", 5000);
    x.need("async_requests", 5000);
    x.need("requests_from_a_reused_builder", 2000);
    x.need("secure_addresses", 1000);
    x.need("plain_addresses", 1000);
    x.need("addresses_with_credentials", 500);
    x.need("displacement_attempts", 100);
    x.need("socket_requests", 300);
    x.need("secure_socket_requests", 200);
    x.need("socket_requests_from_a_reused_builder", 100);
}
