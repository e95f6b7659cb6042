//! C17: the client accepts exactly the genuine upgrade responses.
use crate::core::*;
use crate::crypto::{accept_for, b64};
use crate::exec::{drive, D};
use crate::gen;
use crate::heads::{self, Head};
use crate::hs;
use crate::net;
use crate::recv::errclass;
use crate::stream::*;
use std::io::{ErrorKind, Write};
use websocket::result::{WebSocketError, WebSocketOtherError};
use websocket::ClientBuilder;

#[derive(Clone, Debug, PartialEq)]
pub enum RBad {
    Status(u16),
    Redirect(u16, String),
    Accept,
    Upgrade,
    Connection,
    Parse,
}
pub struct Resp {
    pub bytes: Vec<u8>,
    pub bad: Vec<RBad>,
    /// lists that name more than websocket: either decision is right
    pub open: bool,
}
#[derive(Debug)]
pub enum Outcome {
    Client,
    Status(u16),
    Redirect(u16, String),
    Response(String),
    Http(String),
    Io(String),
    Other(String),
}
pub fn outcome(e: &WebSocketError) -> Outcome {
    match e {
        WebSocketError::IoError(e) => Outcome::Io(e.to_string()),
        WebSocketError::Other(b) => match b.downcast_ref::<WebSocketOtherError>() {
            Some(WebSocketOtherError::StatusCodeError(s)) => Outcome::Status(s.to_u16()),
            Some(WebSocketOtherError::RedirectError(s, l)) => Outcome::Redirect(s.to_u16(), l.clone()),
            Some(WebSocketOtherError::ResponseError(s)) => Outcome::Response(s.to_string()),
            Some(WebSocketOtherError::HttpError(e)) => Outcome::Http(e.to_string()),
            Some(WebSocketOtherError::IoError(e)) => Outcome::Io(e.to_string()),
            _ => Outcome::Other(errclass(e)),
        },
        _ => Outcome::Other(errclass(e)),
    }
}
fn status(r: &mut Rng) -> u16 {
    match r.below(6) {
        0 => 200,
        1 => *r.pick(&[100u16, 102, 103, 199, 110, 111]),
        2 => *r.pick(&[301u16, 302, 303, 307, 308, 300, 304, 399]),
        3 => *r.pick(&[400u16, 401, 403, 404, 426, 500, 503]),
        4 => *r.pick(&[201u16, 204, 205, 206, 299, 600, 999, 1010 % 1000 + 100]),
        _ => loop {
            let s = r.range(100, 999) as u16;
            if s != 101 {
                break s;
            }
        },
    }
}
pub fn response(r: &mut Rng, key: &[u8; 16], nbad: usize, parse: bool) -> Resp {
    let good = accept_for(&b64(key));
    let mut bad = vec![];
    let mut open = false;
    let mut st = 101u16;
    let reason = r.pick(&[" Switching Protocols", " Switching Protocols", " OK", " ", " Web Socket Protocol Handshake", " x y z"]).to_string();
    let mut acc: Vec<String> = vec![good.clone()];
    let mut up: Vec<String> = vec![heads::casing(r, "websocket")];
    if r.chance(1, 12) {
        open = true;
        up = match r.below(3) {
            0 => vec!["websocket, foo".into()],
            1 => vec!["h2c, websocket".into()],
            _ => vec!["websocket".into(), "websocket".into()],
        };
    }
    let mut cl = vec![heads::casing(r, "upgrade")];
    for _ in 0..crate::srv::more(r, 3) {
        let x = r.pick(&["keep-alive", "Keep-Alive", "X-Foo", "TE", "upgraded"]).to_string();
        let p = r.below(cl.len() + 1);
        cl.insert(p, x);
    }
    let mut loc: Option<String> = None;
    if r.chance(1, 10) {
        loc = Some(heads::value(r, 30));
    }
    let mut kinds: Vec<usize> = (0..4).collect();
    r.shuffle(&mut kinds);
    let mut is_status = false;
    for &k in kinds.iter().take(nbad) {
        match k {
            0 => {
                st = status(r);
                is_status = true;
                if r.chance(1, 2) {
                    loc = Some(match r.below(3) {
                        0 => "ws://other.example:81/x?y=1".into(),
                        1 => "/relative".into(),
                        _ => heads::value(r, 60),
                    });
                }
            }
            1 => {
                let mut other = heads::b16(r);
                if other == *key {
                    other[3] ^= 1;
                }
                acc = match r.below(13) {
                    0 => vec![],
                    1 => vec![accept_for(&b64(&other))],
                    2 => vec![good.clone(), good.clone()],
                    3 => vec![good.clone(), accept_for(&b64(&other))],
                    4 => vec![b64(key)],
                    5 => {
                        let mut s = good.clone().into_bytes();
                        let i = r.below(27);
                        s[i] = if s[i] == b'A' { b'B' } else { b'A' };
                        // the last digit has unused bits
                        vec![String::from_utf8(s).unwrap()]
                    }
                    6 => vec![good.to_ascii_lowercase()],
                    7 => vec![good[..27].to_string()],
                    8 => vec![format!("{}=", good)],
                    9 => vec![format!("{}, {}", good, good)],
                    10 => vec![String::new()],
                    11 => vec![format!("\"{}\"", good)],
                    _ => vec![b64(&r.bytes(20))],
                };
                if acc.len() == 1 && acc[0] == good {
                    acc = vec![];
                }
                bad.push(RBad::Accept);
            }
            2 => {
                open = false;
                up = match r.below(4) {
                    0 => vec![],
                    1 => vec!["".into()],
                    _ => vec![r.pick(&["h2c", "websockets", "web socket", "xwebsocket", "websocke", "\"websocket\"", "ws", "TLS/1.0", "foo, bar", "close"]).to_string()],
                };
                bad.push(RBad::Upgrade);
            }
            _ => {
                cl = match r.below(4) {
                    0 => vec![],
                    1 => vec!["".into()],
                    _ => vec![r.pick(&["keep-alive", "close", "upgraded", "up grade", "upgrad", "\"upgrade\"", "Xupgrade", "keep-alive, TE", "websocket"]).to_string()],
                };
                bad.push(RBad::Connection);
            }
        }
    }
    if is_status {
        match (&loc, st) {
            (Some(l), 300..=399) => bad.push(RBad::Redirect(st, l.clone())),
            _ => bad.push(RBad::Status(st)),
        }
    }
    let mut h = Head { first: format!("HTTP/1.1 {}{}", st, reason), fields: vec![] };
    let mut parts: Vec<(String, String)> = vec![];
    for u in &up {
        parts.push(("Upgrade".into(), u.clone()));
    }
    let mut i = 0;
    while i < cl.len() {
        let k = r.range(1, cl.len() - i);
        parts.push(("Connection".into(), cl[i..i + k].join(*r.pick(&[",", ", ", " , "]))));
        i += k;
    }
    for a in &acc {
        parts.push(("Sec-WebSocket-Accept".into(), a.clone()));
    }
    if let Some(l) = &loc {
        parts.push(("Location".into(), l.clone()));
    }
    let nx = if r.chance(1, 20) { 60 } else { r.below(5) };
    for i in 0..nx {
        parts.push((format!("{}-{}", heads::other_name(r), i), heads::value(r, 40)));
    }
    if r.chance(1, 3) {
        parts.push(("Sec-WebSocket-Protocol".into(), "chat".into()));
    }
    if r.chance(1, 6) {
        parts.push(("Content-Length".into(), "0".into()));
    }
    if r.chance(1, 2) {
        r.shuffle(&mut parts);
    }
    for (n, v) in &parts {
        let n = if r.chance(1, 3) { heads::casing(r, n) } else { n.clone() };
        h.push(&n, v);
    }
    let mut bytes = h.encode();
    if parse {
        let mut h2 = h.clone();
        match r.below(5) {
            0 => h2.first = r.pick(&["HTTP/1.1", "HTTP/1.1 1O1 Switching", "HTTP/x 101 S", "ICY 101 S", "101 Switching Protocols", "HTTP/1.1 10 S", "HTTP/1.1101 S", "", "GET / HTTP/1.1"]).to_string(),
            1 => {
                let i = r.below(h2.fields.len());
                h2.fields[i].0 = r.pick(&["bad name", "na(me", "", "na\u{1}me"]).to_string();
            }
            2 => {
                let i = r.below(h2.fields.len());
                h2.fields[i].1 = b"ab\0cd".to_vec();
            }
            3 => {
                for i in 0..130 {
                    h2.push(&format!("X-Many-{}", i), "v");
                }
            }
            _ => h2.first = "\u{1}\u{2}\u{3}".into(),
        }
        bytes = h2.encode();
        bad = vec![RBad::Parse];
        open = false;
    }
    Resp { bytes, bad, open }
}
pub fn judge(who: &str, p: &Resp, o: &Outcome) -> Res {
    let show = || trunc(&String::from_utf8_lossy(&p.bytes).replace("\r\n", " | "), 1500);
    let okay = matches!(o, Outcome::Client);
    if p.open && p.bad.is_empty() {
        return Ok(());
    }
    if p.bad.is_empty() {
        ensure!(okay, "{}: a genuine response was refused with {:?}: {}", who, o, show());
        return Ok(());
    }
    ensure!(!okay, "{}: a response with {:?} established a client: {}", who, p.bad, show());
    let named = p.bad.iter().any(|b| match (b, o) {
        (RBad::Status(s), Outcome::Status(t)) => s == t,
        (RBad::Redirect(s, l), Outcome::Redirect(t, m)) => s == t && l == m,
        (RBad::Accept, Outcome::Response(_)) | (RBad::Upgrade, Outcome::Response(_)) | (RBad::Connection, Outcome::Response(_)) => true,
        (RBad::Parse, Outcome::Http(_)) | (RBad::Parse, Outcome::Io(_)) | (RBad::Parse, Outcome::Other(_)) => true,
        _ => false,
    });
    ensure!(named || p.open, "{}: error {:?} for a response whose faults are {:?}: {}", who, o, p.bad, show());
    Ok(())
}
fn builder(key: Option<[u8; 16]>) -> Result<ClientBuilder<'static>, Fail> {
    let b = ClientBuilder::new("ws://server.example.com/chat?x=1").map_err(|e| Fail::H(e.to_string()))?;
    Ok(match key {
        Some(k) => b.key(k),
        None => b,
    })
}
fn sync(key: &[u8; 16], steps: Vec<Step>, end: End) -> Result<(Outcome, Vec<u8>), Fail> {
    let b = builder(Some(*key))?;
    guard(|| {
        let mut b = b;
        let s = Scripted::new(steps, end);
        let o = match b.connect_on(s.clone()) {
            Ok(_) => Outcome::Client,
            Err(e) => outcome(&e),
        };
        Ok((o, s.out()))
    })
}
fn asyn(key: &[u8; 16], steps: Vec<Step>, end: End) -> Result<(Outcome, Vec<u8>), Fail> {
    let b = builder(Some(*key))?;
    guard(|| {
        let s = Scripted::new(steps, end).asy();
        let o = match drive(b.async_connect_on(s.clone()), &[s.clone()])? {
            D::Done(_) => Outcome::Client,
            D::Err(e) => outcome(&e),
            D::Idle => viol!("async_connect_on is stalled although its input has ended"),
        };
        Ok((o, s.out()))
    })
}
fn script(c: &mut Case, asy: bool, b: &[u8], head: usize) -> Vec<Step> {
    let (steps, _) = gen::segment(&mut c.rng, b, &[head]);
    if asy && c.rng.chance(1, 2) {
        return gen::with_waits(&mut c.rng, steps, &[ErrorKind::WouldBlock], 1, 3);
    }
    steps
}
fn record(c: &mut Case, p: &Resp, o: &Outcome) {
    c.ev(if matches!(o, Outcome::Client) { "established" } else { "refused" }, 1);
    for b in &p.bad {
        let n = match b {
            RBad::Status(_) => "Status".to_string(),
            RBad::Redirect(..) => "Redirect".to_string(),
            x => format!("{:?}", x),
        };
        c.ev(&format!("faulty {}", n), 1);
    }
}
fn pick(c: &mut Case, key: &[u8; 16]) -> Resp {
    match c.idx % 8 {
        0..=2 => response(&mut c.rng, key, 0, false),
        3..=5 => response(&mut c.rng, key, 1, false),
        6 => {
            let n = c.rng.range(2, 4);
            response(&mut c.rng, key, n, false)
        }
        _ => response(&mut c.rng, key, 0, true),
    }
}
fn memory(c: &mut Case) -> Res {
    let key = heads::b16(&mut c.rng);
    let p = pick(c, &key);
    c.note(format!("key {} response {}", b64(&key), String::from_utf8_lossy(&p.bytes).replace("\r\n", " | ")));
    let mut bytes = p.bytes.clone();
    if c.rng.chance(1, 3) {
        let n = c.rng.range(1, 60);
        bytes.extend(c.rng.bytes(n));
    }
    let mut alike = vec![];
    for asy in [false, true] {
        let steps = script(c, asy, &bytes, p.bytes.len());
        let (o, out) = if asy { asyn(&key, steps, End::Eof)? } else { sync(&key, steps, End::Eof)? };
        let who = if asy { "async_connect_on" } else { "connect_on" };
        judge(who, &p, &o)?;
        // nothing but the request goes out, whatever comes back
        match hs::parse_head(&out) {
            Ok(Some(h)) => ensure!(h.len == out.len(), "{}: {} bytes follow the request", who, out.len() - h.len),
            x => viol!("{}: wrote {:?} ({:?})", who, String::from_utf8_lossy(&out), x),
        }
        record(c, &p, &o);
        alike.push(matches!(o, Outcome::Client));
        c.eval(hash(&p.bytes) ^ asy as u64);
    }
    ensure!(alike[0] == alike[1], "the blocking and the asynchronous client decide differently ({:?}) on {}", alike, String::from_utf8_lossy(&p.bytes).replace("\r\n", " | "));
    c.sample(|| format!("{:?}: {}", p.bad, trunc(&String::from_utf8_lossy(&p.bytes), 300)));
    Ok(())
}
/// a genuine response cut short, then end of stream or a failing transport
fn cut(c: &mut Case) -> Res {
    let key = heads::b16(&mut c.rng);
    let p = response(&mut c.rng, &key, 0, false);
    let n = p.bytes.len();
    let cuts: Vec<usize> = if n <= 600 { (0..n).collect() } else { (0..n).step_by(n / 300 + 1).chain(n - 40..n).collect() };
    for k in cuts {
        let asy = (k + c.idx as usize) % 2 == 0;
        let end = match c.rng.below(4) {
            0 => End::Err(ErrorKind::ConnectionReset),
            1 => End::Err(ErrorKind::TimedOut),
            _ => End::Eof,
        };
        let steps = if k == 0 { vec![] } else { script(c, asy, &p.bytes[..k], k / 2) };
        let (o, _) = if asy { asyn(&key, steps, end)? } else { sync(&key, steps, end)? };
        ensure!(!matches!(o, Outcome::Client), "{} established a client on {} of {} bytes of a response (then {:?})", if asy { "async_connect_on" } else { "connect_on" }, k, n, end);
        c.ev("truncated_refused", 1);
    }
    c.eval(hash(&p.bytes));
    Ok(())
}
/// a response that does not end is not an answer: no client, and the async client keeps waiting
fn waiting(c: &mut Case) -> Res {
    let key = heads::b16(&mut c.rng);
    let p = response(&mut c.rng, &key, 0, false);
    let k = c.rng.below(p.bytes.len());
    let b = builder(Some(key))?;
    let s = Scripted::new(if k == 0 { vec![] } else { script(c, true, &p.bytes[..k], k / 2) }, End::Block).asy();
    guard(|| {
        match drive(b.async_connect_on(s.clone()), &[s.clone()])? {
            D::Done(_) => viol!("async_connect_on established a client on {} of {} bytes", k, p.bytes.len()),
            D::Err(e) => viol!("async_connect_on gave up ({}) while its response was still arriving", errclass(&e)),
            D::Idle => Ok(()),
        }
    })?;
    c.ev("kept_waiting", 1);
    c.eval(hash(&p.bytes[..k]));
    Ok(())
}
/// unfixed keys over sockets: the accept value must belong to this attempt's key
fn attempts(c: &mut Case) -> Res {
    let (l, la) = net::listener()?;
    let which = c.rng.below(4);
    let who = ["connect_insecure", "connect", "async_connect_insecure", "async_connect"][which];
    let plan: Vec<usize> = (0..3).map(|i| if i == 0 { 0 } else { c.rng.below(4) }).collect();
    let plan2 = plan.clone();
    let peer = std::thread::spawn(move || -> Result<(), String> {
        let mut first: Option<String> = None;
        for p in plan2 {
            let (mut s, _) = l.accept().map_err(|e| e.to_string())?;
            net::guard_sock(&s);
            let (h, _) = net::read_head(&mut s)?;
            let head = hs::parse_head(&h)?.ok_or("incomplete")?;
            let key = head.all("Sec-WebSocket-Key").first().map(|s| s.to_string()).ok_or("no key")?;
            let f = first.get_or_insert(key.clone()).clone();
            match p {
                0 => s.write_all(&hs::response_with_key(&key)).map_err(|e| e.to_string())?,
                // the answer to an earlier attempt
                1 => s.write_all(&hs::response_with_key(&f)).map_err(|e| e.to_string())?,
                2 => s.write_all(&hs::response_with_key(&key)[..70]).map_err(|e| e.to_string())?,
                _ => {}
            }
        }
        Ok(())
    });
    let mut b = ClientBuilder::new(&format!("ws://{}/", la)).map_err(|e| Fail::H(e.to_string()))?;
    for (i, p) in plan.iter().enumerate() {
        let o = match which {
            0 => guard(|| Ok(b.connect_insecure().map(|_| ()).map_err(|e| outcome(&e))))?,
            1 => guard(|| Ok(b.connect(None).map(|_| ()).map_err(|e| outcome(&e))))?,
            2 => guard(|| net::block(b.clone().async_connect_insecure()))?.map(|_| ()).map_err(|e| outcome(&e)),
            _ => guard(|| net::block(b.clone().async_connect(None)))?.map(|_| ()).map_err(|e| outcome(&e)),
        };
        let what = ["a genuine answer", "the answer to an earlier attempt", "a truncated answer", "no answer"][*p];
        ensure!(o.is_ok() == (*p == 0), "{}, attempt {}: {} gave {:?}", who, i, what, o);
        if *p == 1 {
            ensure!(matches!(o, Err(Outcome::Response(_))), "{}: a replayed answer gave {:?}", who, o);
            c.ev("replayed_answers_refused", 1);
        }
        c.ev("socket_attempts", 1);
    }
    peer.join().map_err(|_| Fail::H("peer thread".into()))?.map_err(Fail::H)?;
    let fp = c.rng.u64();
    c.eval(fp);
    Ok(())
}
/// every status code
fn codes(c: &mut Case) -> Res {
    let key = heads::b16(&mut c.rng);
    for st in 100..=999u16 {
        for loc in [None, Some("ws://elsewhere.example/")] {
            let mut h = heads::good_response(&mut c.rng, &key);
            h.first = format!("HTTP/1.1 {} Whatever", st);
            if let Some(l) = loc {
                h.push("Location", l);
            }
            let bad = if st == 101 {
                vec![]
            } else {
                vec![match loc {
                    Some(l) if st / 100 == 3 => RBad::Redirect(st, l.into()),
                    _ => RBad::Status(st),
                }]
            };
            let p = Resp { bytes: h.encode(), bad, open: false };
            for asy in [false, true] {
                let steps = vec![Step::Data(p.bytes.clone())];
                let (o, _) = if asy { asyn(&key, steps, End::Eof)? } else { sync(&key, steps, End::Eof)? };
                judge(if asy { "async_connect_on" } else { "connect_on" }, &p, &o)?;
                c.ev("status_codes_tried", 1);
            }
        }
    }
    c.eval(hash(&key));
    Ok(())
}
pub fn run(x: &Ctx) {
    x.scale(4);
    x.rule("a case generates a response with known verdict for a known key (genuine with harmless variation, or with a known set of faults, or not HTTP), offers it in generated segments to the blocking and the asynchronous client, and compares establishment and error class with the verdict; further sections cut genuine responses at every byte, run through every status code, and replay answers to earlier attempts over sockets; distinct by response and interface");
    x.assume("responses with fewer than 100 fields and CRLF line ends; an Upgrade list naming further protocols beside websocket may be accepted or refused, alike by both clients");
    x.run("memory", x.q(30_000, 900_000), memory);
    x.run("cut", x.q(300, 5_000), cut);
    x.run("waiting", x.q(2_000, 50_000), waiting);
    x.run("codes", x.q(4, 40), codes);
    x.run_t("attempts", x.q(250, 4_000), 8, attempts);
    x.need("established", 5000);
    x.need("refused", 5000);
    x.need("truncated_refused", 5000);
    x.need("status_codes_tried", 3600);
    x.need("replayed_answers_refused", 50);
    x.need("kept_waiting", 1000);
}
