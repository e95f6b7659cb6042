//! Server handshake entry points behind one interface, and a generator of upgrade requests with known verdicts.
use crate::core::*;
use crate::crypto::b64;
use crate::exec::{drive, D};
use crate::heads::{self, Head};
use crate::net;
use crate::stream::*;
use bytes::BytesMut;
use futures::{Future, Stream as _};
use hyper::header::Headers;
use hyper::http::h1::Incoming;
use hyper::method::Method;
use hyper::uri::RequestUri;
use hyper::version::HttpVersion;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::mpsc;
use std::sync::Mutex;
use websocket::header::extensions::Extension;
use websocket::header::WebSocketVersion;
use websocket::server::upgrade::sync::{HyperRequest, RequestStreamPair};
use websocket::server::upgrade::{HyperIntoWsError, Request, WsUpgrade};
use websocket::stream::Stream as WsStream;

// ------------------------------------------------------------------ requests with known verdicts
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bad {
    Method,
    Http,
    Version,
    Key,
    NoUpgrade,
    WrongUpgrade,
    /// present but without any element: either name is right
    EmptyUpgrade,
    NoConnection,
    WrongConnection,
    EmptyConnection,
    /// the head is not HTTP
    Parse,
}
pub struct Req {
    pub head: Head,
    pub method: String,
    pub uri: String,
    pub version: &'static str,
    pub key: [u8; 16],
    pub bad: Vec<Bad>,
    /// raw bytes when they are not the encoding of `head`
    pub raw: Option<Vec<u8>>,
    pub protocols: Vec<String>,
    pub extensions: Vec<(String, Vec<(String, Option<String>)>)>,
    pub origin: Option<String>,
    pub ws_version: Option<String>,
}
impl Req {
    pub fn bytes(&self) -> Vec<u8> {
        self.raw.clone().unwrap_or_else(|| self.head.encode())
    }
    pub fn show(&self) -> String {
        String::from_utf8_lossy(&self.bytes()).replace("\r\n", " | ")
    }
}
/// tokens that are safe in both lists and parameters
/// a token that starts, ends or otherwise nearly looks like the one asked for, and is not it
fn near_token(r: &mut Rng, w: &str) -> String {
    let sep = *r.pick(&["-", "_", ".", ";", "=", "+", " ", ":", "!", "*", "'", "|", "~", "#", "$", "&"]);
    let t = tok(r, 6);
    let mut s = match r.below(5) {
        0 => format!("{}{}{}", w, sep, t),
        1 => format!("{}{}{}", t, sep, w),
        2 => format!("{}{}", w, t),
        3 => format!("{}{}{}", w, sep, w),
        _ => {
            let i = r.below(w.len());
            let mut b = w.as_bytes().to_vec();
            match r.below(3) {
                0 => {
                    b.remove(i);
                }
                1 => b[i] = if b[i] == b'x' { b'y' } else { b'x' },
                _ => b.insert(i, b'-'),
            }
            String::from_utf8(b).unwrap()
        }
    };
    if r.chance(1, 2) {
        s = s.chars().map(|ch| if r.chance(1, 2) { ch.to_ascii_uppercase() } else { ch }).collect();
    }
    s
}
pub fn tok(r: &mut Rng, max: usize) -> String {
    heads::token(r, max)
}
pub fn ext(r: &mut Rng) -> (String, Vec<(String, Option<String>)>) {
    let n = r.below(4);
    let name = tok(r, 12);
    let params = (0..n)
        .map(|_| {
            let a = tok(r, 8);
            let b = if r.chance(2, 3) { Some(tok(r, 8)) } else { None };
            (a, b)
        })
        .collect();
    (name, params)
}
pub fn ext_text(r: &mut Rng, e: &(String, Vec<(String, Option<String>)>)) -> String {
    let mut s = e.0.clone();
    for (n, v) in &e.1 {
        s.push_str(*r.pick(&[";", "; ", " ; ", " ;"]));
        s.push_str(n);
        if let Some(v) = v {
            s.push('=');
            s.push_str(v);
        }
    }
    s
}
/// put list elements into one or several fields
pub fn list_fields(r: &mut Rng, h: &mut Head, name: &str, els: &[String]) {
    let mut i = 0;
    while i < els.len() {
        let k = if r.chance(1, 2) { els.len() - i } else { r.range(1, els.len() - i) };
        let mut s = String::new();
        for (j, e) in els[i..i + k].iter().enumerate() {
            if j > 0 {
                s.push_str(*r.pick(&[",", ", ", " , ", ", "]));
            }
            s.push_str(e);
        }
        if r.chance(1, 12) {
            s.push_str(" ,");
        }
        let n = if r.chance(1, 3) { heads::casing(r, name) } else { name.to_string() };
        h.push(&n, &s);
        i += k;
    }
}
/// how many further elements a list has: mostly few, now and then many
pub fn more(r: &mut Rng, few: usize) -> usize {
    if r.chance(1, 16) {
        r.range(few, 70)
    } else {
        r.below(few)
    }
}
fn uri(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "/".into(),
        1 => "*".into(),
        2 => "http://server.example.com/abs/path?q=1".into(),
        3 => format!("{}%20x%2Fy", heads::target(r)),
        4 => format!("/{}?{}", "p".repeat(r.range(1, 3000)), "q".repeat(r.range(0, 3000))),
        _ => heads::target(r),
    }
}
/// A request with `nbad` broken requirements (0: valid). `parse`: allow heads that are not HTTP.
pub fn request(r: &mut Rng, nbad: usize, parse: bool) -> Req {
    let key = heads::b16(r);
    let u = uri(r);
    let mut q = Req {
        head: Head { first: String::new(), fields: vec![] },
        method: "GET".into(),
        uri: u,
        version: "HTTP/1.1",
        key,
        bad: vec![],
        raw: None,
        protocols: vec![],
        extensions: vec![],
        origin: None,
        ws_version: None,
    };
    let mut h = Head { first: String::new(), fields: vec![] };
    // valid parts
    let mut up: Vec<Vec<u8>> = vec![];
    let wsname = heads::casing(r, "websocket");
    let mut ul = vec![wsname];
    for _ in 0..more(r, 3) {
        let x = r.pick(&["h2c", "HTTP/2.0", "TLS/1.0", "foo", "websockets", "xwebsocket", "web-socket"]).to_string();
        let p = r.below(ul.len() + 1);
        ul.insert(p, x);
    }
    let mut cl = vec![heads::casing(r, "upgrade")];
    for _ in 0..more(r, 3) {
        let x = r.pick(&["keep-alive", "Keep-Alive", "X-Foo", "TE", "upgraded", "up-grade", "close", "Close"]).to_string();
        let p = r.below(cl.len() + 1);
        cl.insert(p, x);
    }
    let _ = &mut up;
    let mut keyv: Vec<String> = vec![b64(&key)];
    let mut ver: Vec<String> = if r.chance(4, 5) { vec!["13".into()] } else { vec![] };
    let mut upn: Option<Bad> = None;
    let mut con: Option<Bad> = None;
    let mut kinds: Vec<usize> = (0..6).collect();
    r.shuffle(&mut kinds);
    for &k in kinds.iter().take(nbad) {
        match k {
            0 => {
                q.method = r.pick(&["POST", "HEAD", "get", "Get", "PUT", "OPTIONS", "GETX", "DELETE", "PATCH", "G", "TRACE"]).to_string();
                q.bad.push(Bad::Method);
            }
            1 => {
                q.version = "HTTP/1.0";
                q.bad.push(Bad::Http);
            }
            2 => {
                // more than one version named
                if r.chance(1, 8) {
                    let other = r.pick(&["8", "7", "0", "14", "12", ""]).to_string();
                    ver = if r.chance(1, 2) { vec!["13".into(), other] } else { vec![other, "13".into()] };
                } else {
                    ver = vec![match r.below(8) {
                    0 => "8".into(),
                    1 => "12".into(),
                    2 => "14".into(),
                    3 => "0".into(),
                    4 => "130".into(),
                    5 => r.pick(&["013", "1", "3", "-13", "13.0", "0x0d", "31", "1 3", "13a", "255", "\"13\""]).to_string(),
                    6 => "8, 7".into(),
                    _ => tok(r, 4) + "x",
                }];
                }
                q.bad.push(Bad::Version);
            }
            3 => {
                let good = b64(&key);
                keyv = match r.below(12) {
                    0 => vec![],
                    1 => vec![b64(&key[..15])],
                    2 => {
                        let mut k17 = key.to_vec();
                        k17.push(r.u64() as u8);
                        vec![b64(&k17)]
                    }
                    3 => vec![good[..22].to_string()],
                    4 => vec![good.clone(), good.clone()],
                    5 => {
                        let mut o = heads::b16(r);
                        o[0] ^= 1;
                        vec![good.clone(), b64(&o)]
                    }
                    6 => {
                        // illegal character
                        let mut s = good.clone().into_bytes();
                        let i = r.below(22);
                        s[i] = *r.pick(b"!-_*. ~");
                        vec![String::from_utf8(s).unwrap()]
                    }
                    7 => {
                        let n = *r.pick(&[1usize, 8, 12, 14, 18, 19, 20, 24, 32, 48]);
                        vec![b64(&r.bytes(n))]
                    }
                    8 => {
                        // trailing bits that no encoder produces
                        let mut s = good.clone().into_bytes();
                        let al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
                        let v = al.iter().position(|c| *c == s[21]).unwrap();
                        s[21] = al[(v & 0x30) | r.range(1, 15)];
                        vec![String::from_utf8(s).unwrap()]
                    }
                    9 => vec![format!("{}=", good)],
                    10 => vec![format!("{}{}", good, *r.pick(&["x", ", x", " x", "A"]))],
                    _ => vec![value_like_key(r)],
                };
                q.bad.push(Bad::Key);
            }
            4 => {
                ul = match r.below(4) {
                    0 => {
                        upn = Some(Bad::NoUpgrade);
                        vec![]
                    }
                    1 if r.chance(1, 2) => {
                        upn = Some(Bad::EmptyUpgrade);
                        vec!["".into()]
                    }
                    _ => {
                        upn = Some(Bad::WrongUpgrade);
                        let n = 1 + more(r, 3);
                        (0..n).map(|_| if r.chance(1, 3) { near_token(r, "websocket") } else { r.pick(&["h2c", "HTTP/2.0", "websockets", "web socket", "xwebsocket", "websocke", "\"websocket\"", "ws", "foo/websocket", "websocket2"]).to_string() }).collect()
                    }
                };
                q.bad.push(upn.unwrap());
            }
            _ => {
                cl = match r.below(4) {
                    0 => {
                        con = Some(Bad::NoConnection);
                        vec![]
                    }
                    1 if r.chance(1, 2) => {
                        con = Some(Bad::EmptyConnection);
                        vec!["".into()]
                    }
                    _ => {
                        con = Some(Bad::WrongConnection);
                        let n = 1 + more(r, 3);
                        (0..n).map(|_| if r.chance(1, 3) { near_token(r, "upgrade") } else { r.pick(&["keep-alive", "upgraded", "up grade", "Xupgrade", "upgrad", "\"upgrade\"", "TE", "upgrade/1"]).to_string() }).collect()
                    }
                };
                q.bad.push(con.unwrap());
            }
        }
    }
    h.push("Host", "server.example.com");
    list_fields(r, &mut h, "Upgrade", &ul);
    list_fields(r, &mut h, "Connection", &cl);
    for k in &keyv {
        let n = if r.chance(1, 4) { heads::casing(r, "Sec-WebSocket-Key") } else { "Sec-WebSocket-Key".into() };
        h.push(&n, k);
    }
    for v in &ver {
        h.push("Sec-WebSocket-Version", v);
    }
    q.ws_version = ver.first().cloned();
    if r.chance(1, 2) {
        let n = if r.chance(1, 60) { r.range(50, 300) } else { r.range(1, 5) };
        q.protocols = (0..n).map(|_| tok(r, 15)).collect();
        let p = q.protocols.clone();
        list_fields(r, &mut h, "Sec-WebSocket-Protocol", &p);
    }
    if r.chance(1, 2) {
        let n = if r.chance(1, 60) { r.range(30, 120) } else { r.range(1, 4) };
        q.extensions = (0..n).map(|_| ext(r)).collect();
        let e: Vec<String> = q.extensions.clone().iter().map(|e| ext_text(r, e)).collect();
        list_fields(r, &mut h, "Sec-WebSocket-Extensions", &e);
    }
    if r.chance(1, 3) {
        let o = match r.below(4) {
            0 => "null".to_string(),
            1 => "https://a.example:8443".to_string(),
            2 => heads::value(r, 20),
            _ => "http://example.com".into(),
        };
        q.origin = Some(o.clone());
        h.push("Origin", &o);
    }
    // fields that mean something to HTTP, though not to this handshake
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            let (n, v) = *r.pick(&[
                ("Cookie", "a=b; c=d"), ("User-Agent", "Mozilla/5.0 (X; Y) Z"), ("Accept", "*/*"), ("Accept-Encoding", "gzip, deflate"), ("Pragma", "no-cache"), ("Cache-Control", "no-cache, max-age=0"),
                ("Keep-Alive", "timeout=5"), ("Referer", "http://example.com/"), ("Authorization", "Basic dTpw"), ("Range", "bytes=0-10"), ("If-None-Match", "\"x\""), ("Date", "Thu, 01 Jan 1970 00:00:00 GMT"),
                ("Sec-Fetch-Mode", "websocket"), ("Content-Type", "text/plain"), ("Accept-Language", "en;q=0.5"), ("Via", "1.1 proxy"), ("Max-Forwards", "0"), ("From", "a@b.c"), ("X-Forwarded-For", "10.0.0.1"),
            ]);
            if !h.has(n) {
                h.push(n, v);
            }
        }
    }
    let extra = if r.chance(1, 20) { r.range(20, 60) } else { r.below(4) };
    for i in 0..extra {
        let n = format!("{}-{}", heads::other_name(r), i);
        let v = if r.chance(1, 200) { heads::value(r, 30_000) } else if r.chance(1, 30) { heads::value(r, 2000) } else { heads::value(r, 40) };
        h.push(&n, &v);
    }
    // order between different names is free; order within a name matters
    if r.chance(1, 2) {
        let mut f = h.fields.clone();
        let n = f.len();
        for _ in 0..n {
            let i = r.below(n);
            let j = r.below(n);
            if i == j {
                continue;
            }
            let uniq = |k: usize, f: &Vec<(String, Vec<u8>)>| f.iter().filter(|x| x.0.eq_ignore_ascii_case(&f[k].0)).count() == 1;
            if uniq(i, &f) && uniq(j, &f) {
                f.swap(i, j);
            }
        }
        h.fields = f;
    }
    h.first = format!("{} {} {}", q.method, q.uri, q.version);
    q.head = h;
    if parse {
        q.bad = vec![Bad::Parse];
        let mut h = q.head.clone();
        match r.below(7) {
            0 => h.first = format!("{} {}", q.method, q.uri),
            1 => h.first = format!("{} {} {}", q.method, q.uri, r.pick(&["HTTP", "HTTP/1", "http/1.1", "HTTP/x.y", "HTTPS/1.1", "FTP/1.1", "HTTP/11"])),
            2 => {
                let i = r.below(h.fields.len());
                h.fields[i].0 = r.pick(&["bad name", "na(me", "", "na\u{1}me", "n@me", "na me "]).to_string();
            }
            3 => {
                let i = r.below(h.fields.len());
                h.fields[i].1 = b"ab\0cd".to_vec();
            }
            4 => {
                // a line without colon
                let i = r.below(h.fields.len() + 1);
                let mut b = Head { first: h.first.clone(), fields: h.fields[..i].to_vec() }.encode();
                b.truncate(b.len() - 2);
                b.extend_from_slice(b"no colon here\r\n");
                let mut rest = Head { first: String::new(), fields: h.fields[i..].to_vec() }.encode();
                rest.drain(..2);
                b.extend(rest);
                q.raw = Some(b);
            }
            5 => {
                for i in 0..130 {
                    h.push(&format!("X-Many-{}", i), "v");
                }
            }
            _ => h.first = r.pick(&["\u{1}\u{2}", "GET", "GET /a b HTTP/1.1", "(GET) / HTTP/1.1", "GET\t/ HTTP/1.1"]).to_string(),
        }
        if q.raw.is_none() {
            q.raw = Some(h.encode());
        }
    }
    q
}
/// Announces a body or an expectation now and then: none of it concerns the handshake.
pub fn announce(c: &mut Case, q: &mut Req) {
    if q.raw.is_none() && c.rng.chance(1, 4) {
        let (n, v) = *c.rng.pick(&[("Content-Length", "5"), ("Content-Length", "0"), ("Transfer-Encoding", "chunked"), ("Expect", "100-continue"), ("TE", "trailers"), ("Content-Length", "100000")]);
        q.head.push(n, v);
        c.ev("announcing_bodies", 1);
    }
}
fn value_like_key(r: &mut Rng) -> String {
    let mut s = heads::value(r, 30);
    s.push('!');
    s
}

// ------------------------------------------------------------------ entry points
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum SE {
    Sync,
    SyncTcpLike,
    Pair,
    Async,
    Server,
    /// the asynchronous listening server
    AServer,
    Hyper,
    Validate,
}
/// interfaces whose requests arrive over real sockets
pub fn on_socket(e: SE) -> bool {
    matches!(e, SE::Server | SE::AServer | SE::Hyper)
}

#[derive(Clone, Default)]
pub struct AcceptPlan {
    pub protocols: Vec<String>,
    pub extensions: Vec<(String, Vec<(String, Option<String>)>)>,
    /// given to accept_with
    pub custom: Vec<(String, Vec<u8>)>,
    /// put into upgrade.headers directly
    pub preset: Vec<(String, Vec<u8>)>,
    pub use_with: bool,
    pub limits: Option<(usize, usize)>,
    pub many_ext: bool,
    /// receive messages until the end before giving the stream back (socket interfaces)
    pub collect: bool,
}
#[derive(Clone)]
pub enum What {
    /// decide only
    Look,
    Accept(AcceptPlan),
    Reject { custom: Vec<(String, Vec<u8>)>, with: bool, preset: Vec<(String, Vec<u8>)> },
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Reported {
    pub protocols: Vec<String>,
    pub extensions: Vec<(String, Vec<(String, Option<String>)>)>,
    pub key: Option<[u8; 16]>,
    pub version: Option<String>,
    pub origin: Option<String>,
    pub uri: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub method: String,
    pub uri: String,
    pub version: String,
    pub fields: Vec<(String, Vec<Vec<u8>>)>,
}
#[derive(Default, Debug)]
pub struct Rec {
    pub accepted: bool,
    pub err: Option<(&'static str, String)>,
    pub reported: Option<Reported>,
    pub parsed: Option<Parsed>,
    pub written: Vec<u8>,
    /// bytes handed back by the library (buffer)
    pub handed: Option<Vec<u8>>,
    /// bytes read ahead when the application decided to reject (blocking)
    pub ahead: Option<Vec<u8>>,
    /// bytes the library left in the transport
    pub unread: Vec<u8>,
    pub stream_back: bool,
    pub accept_err: Option<String>,
    pub client_headers: Option<Vec<(String, Vec<Vec<u8>>)>>,
    pub client_protocols: Option<Vec<String>>,
    pub client_extensions: Option<Vec<String>>,
    pub messages: Vec<crate::wire::M>,
    pub receive_end: Option<String>,
}
pub fn collect<S: WsStream>(c: &mut websocket::sync::Client<S>, r: &mut Rec) {
    loop {
        match c.recv_message() {
            Ok(m) => r.messages.push(crate::wire::M::of(&m)),
            Err(e) => {
                r.receive_end = Some(crate::recv::errclass(&e));
                return;
            }
        }
    }
}
pub fn errname(e: &HyperIntoWsError) -> &'static str {
    match e {
        HyperIntoWsError::MethodNotGet => "MethodNotGet",
        HyperIntoWsError::UnsupportedHttpVersion => "UnsupportedHttpVersion",
        HyperIntoWsError::UnsupportedWebsocketVersion => "UnsupportedWebsocketVersion",
        HyperIntoWsError::NoSecWsKeyHeader => "NoSecWsKeyHeader",
        HyperIntoWsError::NoWsUpgradeHeader => "NoWsUpgradeHeader",
        HyperIntoWsError::NoUpgradeHeader => "NoUpgradeHeader",
        HyperIntoWsError::NoWsConnectionHeader => "NoWsConnectionHeader",
        HyperIntoWsError::NoConnectionHeader => "NoConnectionHeader",
        HyperIntoWsError::Io(_) => "Io",
        HyperIntoWsError::Parsing(_) => "Parsing",
    }
}
pub fn names(b: Bad) -> &'static [&'static str] {
    match b {
        Bad::Method => &["MethodNotGet"],
        Bad::Http => &["UnsupportedHttpVersion"],
        Bad::Version => &["UnsupportedWebsocketVersion"],
        Bad::Key => &["NoSecWsKeyHeader"],
        Bad::NoUpgrade => &["NoUpgradeHeader"],
        Bad::WrongUpgrade => &["NoWsUpgradeHeader"],
        Bad::EmptyUpgrade => &["NoUpgradeHeader", "NoWsUpgradeHeader"],
        Bad::NoConnection => &["NoConnectionHeader"],
        Bad::WrongConnection => &["NoWsConnectionHeader"],
        Bad::EmptyConnection => &["NoConnectionHeader", "NoWsConnectionHeader"],
        Bad::Parse => &["Parsing", "Io"],
    }
}
pub fn fields_of(h: &Headers) -> Vec<(String, Vec<Vec<u8>>)> {
    h.iter().map(|v| (v.name().to_string(), h.get_raw(v.name()).map(|r| r.to_vec()).unwrap_or_default())).collect()
}
pub fn parsed_of(m: &Method, u: &RequestUri, v: HttpVersion, h: &Headers) -> Parsed {
    Parsed { method: m.to_string(), uri: u.to_string(), version: v.to_string(), fields: fields_of(h) }
}
pub fn headers_of(f: &[(String, Vec<u8>)]) -> Headers {
    let mut h = Headers::new();
    for (n, v) in f {
        h.append_raw(n.clone(), v.clone());
    }
    h
}
pub fn mk_ext(e: &(String, Vec<(String, Option<String>)>)) -> Extension {
    let mut x = Extension::new(e.0.clone());
    for (n, v) in &e.1 {
        x.params.push(websocket::header::extensions::Parameter::new(n.clone(), v.clone()));
    }
    x
}
pub fn un_ext(e: &Extension) -> (String, Vec<(String, Option<String>)>) {
    (e.name.clone(), e.params.iter().map(|p| (p.name.clone(), p.value.clone())).collect())
}
pub fn report<S: WsStream, B>(u: &WsUpgrade<S, B>) -> Reported {
    Reported {
        protocols: u.protocols().to_vec(),
        extensions: u.extensions().iter().map(un_ext).collect(),
        key: u.key().cloned(),
        version: u.version().map(|v| match v {
            WebSocketVersion::WebSocket13 => "13".to_string(),
            WebSocketVersion::Unknown(s) => format!("unknown {}", s),
        }),
        origin: u.origin().map(|s| s.to_string()),
        uri: u.uri(),
    }
}
fn dress<S: WsStream, B>(mut u: WsUpgrade<S, B>, p: &AcceptPlan) -> WsUpgrade<S, B> {
    for (n, v) in &p.preset {
        u.headers.append_raw(n.clone(), v.clone());
    }
    for x in &p.protocols {
        u = u.use_protocol(x.clone());
    }
    if p.many_ext {
        let v: Vec<Extension> = p.extensions.iter().map(mk_ext).collect();
        if !v.is_empty() {
            let k = v.len() / 2;
            u = u.use_extensions(v[..k.max(1)].to_vec());
            if v.len() > k.max(1) {
                u = u.use_extensions(v[k.max(1)..].to_vec());
            }
        }
    } else {
        for e in &p.extensions {
            u = u.use_extension(mk_ext(e));
        }
    }
    u
}
/// Carry out `what` on a blocking upgrade. Returns the stream if it is handed back, else the client.
macro_rules! sync_do {
    ($u:expr, $what:expr, $rec:expr, $onstream:expr, $onclient:expr) => {{
        let u = $u;
        $rec.accepted = true;
        $rec.reported = Some(report(&u));
        $rec.parsed = Some(parsed_of(&u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers));
        match $what {
            What::Look => {
                if let Some(b) = &u.buffer {
                    $rec.handed = Some(b.buf[b.pos..b.cap].to_vec());
                }
                $onstream(u.stream, &mut $rec);
            }
            What::Accept(p) => {
                let u = dress(u, p);
                let h = headers_of(&p.custom);
                let r = match (p.limits, p.use_with) {
                    (None, false) => u.accept(),
                    (None, true) => u.accept_with(&h),
                    (Some((f, m)), false) => u.accept_with_limits(f, m),
                    (Some((f, m)), true) => u.accept_with_headers_and_limits(&h, f, m),
                };
                match r {
                    Ok(c) => {
                        $rec.client_protocols = Some(c.protocols().to_vec());
                        $rec.client_extensions = Some(c.extensions().iter().map(|e| e.to_string()).collect());
                        $rec.client_headers = Some(header_lines(c.headers()));
                        $onclient(c, &mut $rec);
                    }
                    Err((s, e)) => {
                        $rec.accept_err = Some(e.to_string());
                        $onstream(s, &mut $rec);
                    }
                }
            }
            What::Reject { custom, with, preset } => {
                let mut u = u;
                $rec.ahead = Some(u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default());
                for (n, v) in preset {
                    u.headers.append_raw(n.clone(), v.clone());
                }
                let h = headers_of(custom);
                let r = if *with { u.reject_with(&h) } else { u.reject() };
                match r {
                    Ok(s) => $onstream(s, &mut $rec),
                    Err((s, e)) => {
                        $rec.accept_err = Some(e.to_string());
                        $onstream(s, &mut $rec)
                    }
                }
            }
        }
    }};
}
/// lines as they would be written
pub fn header_lines(h: &Headers) -> Vec<(String, Vec<Vec<u8>>)> {
    let s = h.to_string();
    let mut v: Vec<(String, Vec<Vec<u8>>)> = vec![];
    for l in s.split("\r\n") {
        if let Some(i) = l.find(':') {
            v.push((l[..i].to_string(), vec![l[i + 1..].trim().as_bytes().to_vec()]));
        }
    }
    v
}

pub const MARK: &[u8] = b"<<still usable>>";
struct Job {
    what: What,
    tx: mpsc::Sender<Rec>,
}
static JOBS: Mutex<Option<HashMap<u16, Job>>> = Mutex::new(None);
static HYPER: Mutex<Option<u16>> = Mutex::new(None);
fn hyper_handle(req: hyper::server::Request, res: hyper::server::Response) {
    let port = req.remote_addr.port();
    let job = match JOBS.lock().unwrap().as_ref().and_then(|m| m.get(&port).map(|j| Job { what: j.what.clone(), tx: j.tx.clone() })) {
        Some(j) => j,
        None => return,
    };
    let mut rec = Rec::default();
    use websocket::server::upgrade::sync::IntoWs;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match IntoWs::into_ws(HyperRequest(req)) {
        Ok(u) => {
            // nothing may follow what the upgraded connection writes
            std::mem::forget(res);
            let what = &job.what;
            sync_do!(
                u,
                what,
                rec,
                |s: &mut &mut dyn hyper::net::NetworkStream, r: &mut Rec| {
                    r.stream_back = s.write_all(MARK).is_ok() && s.flush().is_ok();
                },
                |mut c: websocket::sync::Client<&mut &mut dyn hyper::net::NetworkStream>, r: &mut Rec| {
                    if matches!(what, What::Accept(p) if p.collect) {
                        collect(&mut c, r);
                    }
                    let (_s, b) = c.into_stream();
                    r.handed = b.map(|(buf, a, b)| buf[a.min(b)..a.max(b)].to_vec());
                }
            );
            rec
        }
        Err((q, e)) => {
            rec.err = Some((errname(&e), e.to_string()));
            rec.parsed = Some(parsed_of(&q.method, &q.uri, q.version, &q.headers));
            drop(q);
            rec.stream_back = res.send(MARK).is_ok();
            rec
        }
    }));
    match r {
        Ok(rec) => {
            let _ = job.tx.send(rec);
        }
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let _ = job.tx.send(Rec { err: Some(("PANIC", format!("panicked at {}: {}", loc, msg))), ..Rec::default() });
        }
    }
}
fn hyper_port() -> Result<u16, Fail> {
    let mut g = HYPER.lock().unwrap();
    if let Some(p) = *g {
        return Ok(p);
    }
    let mut s = hyper::Server::http("127.0.0.1:0").map_err(|e| Fail::H(format!("hyper server: {}", e)))?;
    s.keep_alive(Some(std::time::Duration::from_secs(60)));
    let l = s.handle_threads(hyper_handle, 24).map_err(|e| Fail::H(format!("hyper server: {}", e)))?;
    let p = l.socket.port();
    std::mem::forget(l);
    *JOBS.lock().unwrap() = Some(HashMap::new());
    *g = Some(p);
    Ok(p)
}

pub fn tcp_pair_send(addr: std::net::SocketAddr, chunks: &[Vec<u8>]) -> Result<TcpStream, Fail> {
    let mut s = TcpStream::connect(addr).map_err(|e| Fail::H(format!("connect: {}", e)))?;
    net::guard_sock(&s);
    for c in chunks {
        s.write_all(c).map_err(|e| Fail::H(format!("write: {}", e)))?;
    }
    Ok(s)
}
fn drain(s: &mut TcpStream) -> Result<Vec<u8>, Fail> {
    let mut v = vec![];
    let mut b = [0u8; 8192];
    loop {
        match s.read(&mut b) {
            Ok(0) => return Ok(v),
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(v),
            Err(e) => return Err(Fail::H(format!("draining the peer side: {}", e))),
        }
    }
}

/// Offer the bytes to entry point `e` and carry out `what` if it admits them.
/// `steps`: read script; for socket interfaces its data pieces are written in order.
/// `complete`: whether a whole head is in there (interfaces that need a parsed request require it).
pub fn serve(e: SE, q: &Req, steps: Vec<Step>, end: End, what: &What, wplan: Vec<W>, fplan: Vec<bool>) -> Result<Rec, Fail> {
    let mut rec = Rec::default();
    match e {
        SE::Sync | SE::SyncTcpLike => guard(|| {
            use websocket::server::upgrade::sync::IntoWs;
            let s = Scripted::new(steps, end).wplan(wplan, fplan);
            let id = s.id();
            if e == SE::SyncTcpLike {
                s.l().read_cap = 7;
            }
            match IntoWs::into_ws(s.clone()) {
                Ok(u) => {
                    sync_do!(
                        u,
                        what,
                        rec,
                        |x: Scripted, r: &mut Rec| r.stream_back = x.id() == id,
                        |c: websocket::sync::Client<Scripted>, r: &mut Rec| {
                            let (x, b) = c.into_stream();
                            r.stream_back = x.id() == id;
                            r.handed = b.map(|(buf, a, b)| buf[a.min(b)..a.max(b)].to_vec());
                        }
                    );
                }
                Err((x, req, buf, err)) => {
                    rec.err = Some((errname(&err), err.to_string()));
                    rec.stream_back = x.id() == id;
                    rec.parsed = req.map(|r| parsed_of(&r.subject.0, &r.subject.1, r.version, &r.headers));
                    rec.handed = buf.map(|b| b.buf[b.pos..b.cap].to_vec());
                }
            }
            rec.written = s.out();
            rec.unread = s.unread();
            Ok(rec)
        }),
        SE::Pair => guard(|| {
            use websocket::server::upgrade::sync::IntoWs;
            // the request was read by the application, what follows it is still in the stream
            let skip = q.bytes().len();
            let rest: Vec<u8> = steps.into_iter().flat_map(|s| if let Step::Data(d) = s { d } else { vec![] }).skip(skip).collect();
            let s = if rest.is_empty() { Scripted::empty() } else { Scripted::of(rest) }.wplan(wplan, fplan);
            let id = s.id();
            let req: Request = incoming(q)?;
            match IntoWs::into_ws(RequestStreamPair(s.clone(), req)) {
                Ok(u) => {
                    sync_do!(
                        u,
                        what,
                        rec,
                        |x: Scripted, r: &mut Rec| r.stream_back = x.id() == id,
                        |c: websocket::sync::Client<Scripted>, r: &mut Rec| {
                            r.stream_back = c.stream_ref().id() == id;
                        }
                    );
                }
                Err((x, req, err)) => {
                    rec.err = Some((errname(&err), err.to_string()));
                    rec.stream_back = x.id() == id;
                    rec.parsed = Some(parsed_of(&req.subject.0, &req.subject.1, req.version, &req.headers));
                }
            }
            rec.written = s.out();
            rec.unread = s.unread();
            Ok(rec)
        }),
        SE::Validate => guard(|| {
            let req: Request = incoming(q)?;
            match websocket::server::upgrade::validate(&req.subject.0, req.version, &req.headers) {
                Ok(()) => rec.accepted = true,
                Err(err) => rec.err = Some((errname(&err), err.to_string())),
            }
            Ok(rec)
        }),
        SE::Async => guard(|| {
            use websocket::server::upgrade::r#async::IntoWs;
            let s = Scripted::new(steps, end).wplan(wplan, fplan).asy();
            let id = s.id();
            let ss = [s.clone()];
            match drive(IntoWs::into_ws(s.clone()), &ss)? {
                D::Done(u) => {
                    rec.accepted = true;
                    rec.reported = Some(report(&u));
                    rec.parsed = Some(parsed_of(&u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers));
                    match what {
                        What::Look => {
                            rec.handed = Some(u.buffer.to_vec());
                            rec.stream_back = u.stream.id() == id;
                        }
                        What::Accept(p) => {
                            let u = dress(u, p);
                            let h = headers_of(&p.custom);
                            let f = match (p.limits, p.use_with) {
                                (None, false) => u.accept(),
                                (None, true) => u.accept_with(&h),
                                (Some((a, b)), false) => u.accept_with_limits(a, b),
                                (Some((a, b)), true) => u.accept_with_headers_and_limits(&h, a, b),
                            };
                            match drive(f, &ss)? {
                                D::Done((c, h)) => {
                                    rec.client_headers = Some(header_lines(&h));
                                    let parts = c.into_parts();
                                    rec.stream_back = parts.io.id() == id;
                                    rec.handed = Some(parts.read_buf.to_vec());
                                    ensure!(parts.write_buf.is_empty(), "async accept completed with {} bytes of the response unsent", parts.write_buf.len());
                                }
                                D::Err(e) => rec.accept_err = Some(crate::recv::errclass(&e)),
                                D::Idle => viol!("async accept is stalled"),
                            }
                        }
                        What::Reject { custom, with, preset } => {
                            let mut u = u;
                            for (n, v) in preset {
                                u.headers.append_raw(n.clone(), v.clone());
                            }
                            let h = headers_of(custom);
                            let f = if *with { u.reject_with(&h) } else { u.reject() };
                            match drive(f, &ss)? {
                                D::Done(f) => {
                                    let parts = f.into_parts();
                                    rec.stream_back = parts.io.id() == id;
                                    rec.handed = Some(parts.read_buf.to_vec());
                                    ensure!(parts.write_buf.is_empty(), "async reject completed with {} bytes of the response unsent", parts.write_buf.len());
                                }
                                D::Err(e) => rec.accept_err = Some(e.to_string()),
                                D::Idle => viol!("async reject is stalled"),
                            }
                        }
                    }
                }
                D::Err((x, req, buf, err)) => {
                    rec.err = Some((errname(&err), err.to_string()));
                    rec.stream_back = x.id() == id;
                    rec.parsed = req.map(|r| parsed_of(&r.subject.0, &r.subject.1, r.version, &r.headers));
                    rec.handed = Some(buf.to_vec());
                }
                D::Idle => viol!("the asynchronous handshake is stalled on a complete request: {}", trunc(&q.show(), 400)),
            }
            rec.written = s.out();
            rec.unread = s.unread();
            Ok(rec)
        }),
        SE::Server => {
            let mut server = websocket::sync::Server::bind(net::any().as_str()).map_err(|e| Fail::H(format!("bind: {}", e)))?;
            let addr = server.local_addr().map_err(|e| Fail::H(e.to_string()))?;
            let chunks: Vec<Vec<u8>> = steps.into_iter().filter_map(|s| if let Step::Data(d) = s { Some(d) } else { None }).collect();
            let mut peer = tcp_pair_send(addr, &chunks)?;
            let local = peer.local_addr().map_err(|e| Fail::H(e.to_string()))?;
            let _ = peer.shutdown(std::net::Shutdown::Write);
            let rec = guard(|| {
                let rest = |mut x: TcpStream, r: &mut Rec| {
                    net::guard_sock(&x);
                    let same = x.peer_addr().map(|a| a == local).unwrap_or(false);
                    r.unread = drain(&mut x).unwrap_or_default();
                    r.stream_back = same && x.write_all(MARK).is_ok();
                };
                match if q.uri.len() % 2 == 0 { server.accept() } else { server.next().unwrap() } {
                    Ok(u) => {
                        sync_do!(u, what, rec, |x: TcpStream, r: &mut Rec| rest(x, r), |mut c: websocket::sync::Client<TcpStream>, r: &mut Rec| {
                            net::guard_sock(c.stream_ref());
                            if matches!(what, What::Accept(p) if p.collect) {
                                collect(&mut c, r);
                            }
                            let (mut x, b) = c.into_stream();
                            r.stream_back = x.peer_addr().map(|a| a == local).unwrap_or(false);
                            net::guard_sock(&x);
                            r.unread = drain(&mut x).unwrap_or_default();
                            r.handed = b.map(|(buf, a, b)| buf[a.min(b)..a.max(b)].to_vec());
                        });
                    }
                    Err(ic) => {
                        rec.err = Some((errname(&ic.error), ic.error.to_string()));
                        rec.parsed = ic.parsed.map(|r| parsed_of(&r.subject.0, &r.subject.1, r.version, &r.headers));
                        rec.handed = ic.buffer.map(|b| b.buf[b.pos..b.cap].to_vec());
                        match ic.stream {
                            Some(x) => rest(x, &mut rec),
                            None => rec.stream_back = false,
                        }
                    }
                }
                Ok(rec)
            })?;
            drop(server);
            let mut rec = rec;
            rec.written = drain(&mut peer)?;
            strip_mark(&mut rec);
            Ok(rec)
        }
        SE::AServer => {
            use tokio::reactor::Handle;
            let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(|e| Fail::H(format!("runtime: {}", e)))?;
            let server = websocket::r#async::Server::bind(net::any().as_str(), &Handle::default()).map_err(|e| Fail::H(format!("bind: {}", e)))?;
            let addr = server.local_addr().map_err(|e| Fail::H(e.to_string()))?;
            let chunks: Vec<Vec<u8>> = steps.into_iter().filter_map(|s| if let Step::Data(d) = s { Some(d) } else { None }).collect();
            let mut peer = tcp_pair_send(addr, &chunks)?;
            let local = peer.local_addr().map_err(|e| Fail::H(e.to_string()))?;
            let _ = peer.shutdown(std::net::Shutdown::Write);
            let mut rec = guard(|| {
                let rest = |rt: &mut tokio::runtime::current_thread::Runtime, x: tokio::net::TcpStream, r: &mut Rec| {
                    let same = x.peer_addr().map(|a| a == local).unwrap_or(false);
                    if let Ok((x, v)) = rt.block_on(tokio::io::read_to_end(x, vec![])) {
                        r.unread = v;
                        r.stream_back = same && rt.block_on(tokio::io::write_all(x, MARK)).is_ok();
                    }
                };
                let (first, more) = match rt.block_on(server.incoming().into_future()) {
                    Ok((x, m)) => (Ok(x), Some(m)),
                    Err((e, m)) => (Err(e), Some(m)),
                };
                drop(more);
                match first {
                    Ok(None) => viol!("the asynchronous server ended without an item"),
                    Ok(Some((u, from))) => {
                        ensure!(from == local, "the asynchronous server says the connection is from {}, it is from {}", from, local);
                        rec.accepted = true;
                        rec.reported = Some(report(&u));
                        rec.parsed = Some(parsed_of(&u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers));
                        match what {
                            What::Look => {
                                rec.handed = Some(u.buffer.to_vec());
                                rest(&mut rt, u.stream, &mut rec);
                            }
                            What::Accept(p) => {
                                let u = dress(u, p);
                                let h = headers_of(&p.custom);
                                let f = match (p.limits, p.use_with) {
                                    (None, false) => u.accept(),
                                    (None, true) => u.accept_with(&h),
                                    (Some((a, b)), false) => u.accept_with_limits(a, b),
                                    (Some((a, b)), true) => u.accept_with_headers_and_limits(&h, a, b),
                                };
                                match rt.block_on(f) {
                                    Ok((mut c, h)) => {
                                        rec.client_headers = Some(header_lines(&h));
                                        if p.collect {
                                            loop {
                                                match rt.block_on(c.into_future()) {
                                                    Ok((Some(m), n)) => {
                                                        rec.messages.push(crate::wire::M::of(&m));
                                                        c = n;
                                                    }
                                                    Ok((None, n)) => {
                                                        rec.receive_end = Some("end".into());
                                                        c = n;
                                                        break;
                                                    }
                                                    Err((e, n)) => {
                                                        rec.receive_end = Some(crate::recv::errclass(&e));
                                                        c = n;
                                                        break;
                                                    }
                                                }
                                            }
                                        }
                                        let parts = c.into_parts();
                                        let same = parts.io.peer_addr().map(|a| a == local).unwrap_or(false);
                                        rec.handed = Some(parts.read_buf.to_vec());
                                        ensure!(parts.write_buf.is_empty(), "async accept completed with {} bytes of the response unsent", parts.write_buf.len());
                                        if let Ok((_x, v)) = rt.block_on(tokio::io::read_to_end(parts.io, vec![])) {
                                            rec.unread = v;
                                            rec.stream_back = same;
                                        }
                                    }
                                    Err(e) => rec.accept_err = Some(crate::recv::errclass(&e)),
                                }
                            }
                            What::Reject { custom, with, preset } => {
                                let mut u = u;
                                for (n, v) in preset {
                                    u.headers.append_raw(n.clone(), v.clone());
                                }
                                let h = headers_of(custom);
                                match rt.block_on(if *with { u.reject_with(&h) } else { u.reject() }) {
                                    Ok(f) => {
                                        let parts = f.into_parts();
                                        rec.handed = Some(parts.read_buf.to_vec());
                                        ensure!(parts.write_buf.is_empty(), "async reject completed with {} bytes of the response unsent", parts.write_buf.len());
                                        rest(&mut rt, parts.io, &mut rec);
                                    }
                                    Err(e) => rec.accept_err = Some(e.to_string()),
                                }
                            }
                        }
                    }
                    Err(ic) => {
                        rec.err = Some((errname(&ic.error), ic.error.to_string()));
                        rec.parsed = ic.parsed.map(|r| parsed_of(&r.subject.0, &r.subject.1, r.version, &r.headers));
                        rec.handed = ic.buffer.map(|b| b.to_vec());
                        if let Some(x) = ic.stream {
                            rest(&mut rt, x, &mut rec);
                        }
                    }
                }
                Ok(rec)
            })?;
            drop(rt);
            rec.written = drain(&mut peer)?;
            strip_mark(&mut rec);
            Ok(rec)
        }
        SE::Hyper => {
            let port = hyper_port()?;
            // one address only: jobs are told apart by the port they come from
            let s = net::dial(([127, 0, 0, 1], port).into())?;
            net::guard_sock(&s);
            let mut s = s;
            let mine = s.local_addr().map_err(|e| Fail::H(e.to_string()))?.port();
            let (tx, rx) = mpsc::channel();
            JOBS.lock().unwrap().as_mut().unwrap().insert(mine, Job { what: what.clone(), tx });
            for st in steps {
                if let Step::Data(d) = st {
                    if s.write_all(&d).is_err() {
                        break;
                    }
                }
            }
            let _ = s.shutdown(std::net::Shutdown::Write);
            let out = drain(&mut s)?;
            JOBS.lock().unwrap().as_mut().unwrap().remove(&mine);
            let mut rec = match rx.try_recv() {
                Ok(r) => r,
                Err(_) => {
                    // the HTTP server itself refused the bytes
                    rec.err = Some(("Parsing", "the HTTP server did not hand the request over".into()));
                    rec.written = out;
                    rec.stream_back = true;
                    return Ok(rec);
                }
            };
            if let Some(("PANIC", m)) = &rec.err {
                viol!("HyperRequest: {}", m);
            }
            rec.written = out;
            if rec.err.is_none() {
                strip_mark(&mut rec);
            } else if rec.stream_back {
                // the application answered over the handed back request: that is its own response
                let ok = rec.written.windows(MARK.len()).any(|w| w == MARK) && rec.written.starts_with(b"HTTP/1.");
                rec.stream_back = ok;
                rec.written.clear();
            }
            Ok(rec)
        }
    }
}
fn strip_mark(rec: &mut Rec) {
    if rec.written.ends_with(MARK) {
        let n = rec.written.len() - MARK.len();
        rec.written.truncate(n);
    }
}
/// The request as an HTTP library would hand it over.
pub fn incoming(q: &Req) -> Result<Request, Fail> {
    let mut h = Headers::new();
    for (n, v) in &q.head.fields {
        h.append_raw(n.clone(), v.clone());
    }
    Ok(Incoming {
        version: if q.version == "HTTP/1.0" { HttpVersion::Http10 } else { HttpVersion::Http11 },
        subject: (
            q.method.parse().map_err(|_| Fail::H(format!("method {:?}", q.method)))?,
            q.uri.parse().map_err(|_| Fail::H(format!("uri {:?}", q.uri)))?,
        ),
        headers: h,
    })
}
#[allow(dead_code)]
fn _u<F: Future>(_: F, _: BytesMut) {}
