//! C23: asynchronous HTTP codecs consume exactly one message head.
use crate::core::*;
use crate::exec::{drive, D};
use crate::gen;
use crate::heads::{self, alnum, other_name, target, token, value, Head};
use crate::stream::{End, Scripted};
use bytes::BytesMut;
use futures::Stream;
use hyper::header::Headers;
use hyper::http::h1::Incoming;
use hyper::http::RawStatus;
use hyper::method::Method;
use hyper::status::StatusCode;
use hyper::uri::RequestUri;
use hyper::version::HttpVersion;
use std::collections::BTreeMap;
use tokio_codec::{Decoder, Encoder, Framed};
use url::Url;
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};

/// first line and fields, as the application sees them
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    first: String,
    fields: BTreeMap<String, Vec<Vec<u8>>>,
}
fn fields_of(h: &Headers) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for (n, v) in crate::srv::fields_of(h) {
        m.entry(n.to_ascii_lowercase()).or_default().extend(v);
    }
    m
}
fn req_seen(i: &Incoming<(Method, RequestUri)>) -> Seen {
    Seen { first: format!("{} {} {}", i.subject.0, i.subject.1, i.version), fields: fields_of(&i.headers) }
}
fn res_seen(i: &Incoming<RawStatus>) -> Seen {
    Seen { first: format!("{} {}", i.version, i.subject.0), fields: fields_of(&i.headers) }
}
fn decode(request: bool, b: &mut BytesMut) -> Result<Option<Seen>, String> {
    if request {
        HttpServerCodec.decode(b).map(|o| o.map(|i| req_seen(&i))).map_err(|e| e.to_string())
    } else {
        HttpClientCodec.decode(b).map(|o| o.map(|i| res_seen(&i))).map_err(|e| e.to_string())
    }
}
/// a head that must be understood: its bytes and what it says
fn head(r: &mut Rng, request: bool) -> (Vec<u8>, Seen) {
    head_of(r, request, 0)
}
/// `bulk`: about that many bytes of field values on top
fn head_of(r: &mut Rng, request: bool, bulk: usize) -> (Vec<u8>, Seen) {
    let v = *r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]);
    let (line, first) = if request {
        let m = match r.below(4) {
            0 => token(r, 8),
            1 => r.pick(&["POST", "PUT", "HEAD", "OPTIONS", "DELETE", "PATCH", "TRACE"]).to_string(),
            _ => "GET".to_string(),
        };
        let t = match r.below(6) {
            0 => "*".to_string(),
            1 => format!("http://{}.test/{}", alnum(r, 9).to_lowercase().replace(|c: char| !c.is_ascii_alphabetic(), "a"), alnum(r, 9)),
            2 => format!("/{}", "a/".repeat(r.below(3000))),
            _ => target(r),
        };
        (format!("{} {} {}", m, t, v), format!("{} {} {}", m, t, v))
    } else {
        let code = if r.chance(1, 2) { r.range(100, 599) } else { *r.pick(&[101, 200, 404, 100, 599, 301]) };
        let reason = match r.below(4) {
            0 => String::new(),
            1 => value(r, 60).replace(|c: char| c == '\0', "x"),
            2 => "Switching Protocols".into(),
            _ => "OK then".into(),
        };
        (format!("{} {} {}", v, code, reason), format!("{} {}", v, code))
    };
    let mut h = Head { first: line, fields: vec![] };
    let mut fields: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let many = r.chance(1, 10);
    let long = r.chance(1, 12);
    let n = if many { r.range(40, 99 - if bulk > 0 { 6 } else { 0 }) } else { r.below(8) };
    for _ in 0..n {
        let name = match r.below(5) {
            0 => "Set-Cookie".to_string(),
            1 => heads::casing(r, "Sec-WebSocket-Protocol"),
            2 => token(r, 14),
            _ => other_name(r),
        };
        let val: Vec<u8> = match r.below(6) {
            0 => vec![],
            1 if long => value(r, 3000).into_bytes(),
            2 => {
                let k = r.range(1, 12);
                gen::utf8(r, k).bytes().filter(|b| *b > 0x20 && *b != 0x7f).collect()
            }
            _ => value(r, 40).into_bytes(),
        };
        fields.entry(name.to_ascii_lowercase()).or_default().push(val.clone());
        h.fields.push((name, val));
    }
    if bulk > 0 {
        let k = r.range(1, 6);
        for _ in 0..k {
            let name = other_name(r);
            let val = vec![*r.pick(b"abxyz01"); bulk / k];
            fields.entry(name.to_ascii_lowercase()).or_default().push(val.clone());
            let at = r.below(h.fields.len() + 1);
            // values of one field keep their order
            let at = if fields[&name.to_ascii_lowercase()].len() > 1 { h.fields.len() } else { at };
            h.fields.insert(at, (name, val));
        }
    }
    let mut b = h.encode();
    if r.chance(1, 8) {
        // bare line feeds, here and there
        let all = r.chance(1, 2);
        let mut o = vec![];
        for &x in &b {
            if x == b'\n' && o.last() == Some(&b'\r') && (all || r.chance(1, 2)) {
                o.pop();
            }
            o.push(x);
        }
        b = o;
    }
    if r.chance(1, 8) {
        let mut o = vec![];
        let n = if r.chance(1, 6) { r.range(5, 2000) } else { r.range(1, 4) };
        for _ in 0..n {
            o.extend_from_slice(r.pick(&[&b"\r\n"[..], b"\n"]));
        }
        o.extend_from_slice(&b);
        b = o;
    }
    (b, Seen { first, fields })
}
fn tail(r: &mut Rng) -> Vec<u8> {
    match r.below(7) {
        0 => vec![],
        1 => b"\r\n\r\n".to_vec(),
        2 => b"\r\n".to_vec(),
        3 => {
            let q = r.chance(1, 2);
            head(r, q).0
        }
        4 => {
            let mut v = vec![];
            for m in gen::msgs(r, 4, false) {
                v.extend(gen::frame_of(r, &m, true).encode());
            }
            v
        }
        5 => {
            let mut v = r.bytes(40);
            v.extend_from_slice(b"\n\r\n\r\n");
            v.extend(r.bytes(20));
            v
        }
        _ => {
            let n = r.below(300);
            r.bytes(n)
        }
    }
}
fn show(b: &[u8]) -> String {
    trunc(&format!("{:?}", String::from_utf8_lossy(b)), 600)
}
fn good(c: &mut Case) -> Res {
    good_head(c, 0)
}
fn huge(c: &mut Case) -> Res {
    let n = c.rng.range(40_000, 340_000);
    c.ev("huge_heads", 1);
    good_head(c, n)
}
fn good_head(c: &mut Case, bulk: usize) -> Res {
    let r = &mut c.rng;
    let request = r.chance(1, 2);
    let (h, want) = head_of(r, request, bulk);
    let t = tail(r);
    let mut all = h.clone();
    all.extend_from_slice(&t);
    let seg = *r.pick(&gen::SEGS);
    let seg = if all.len() > 20_000 && seg == gen::Seg::Bytes { gen::Seg::Random } else { seg };
    let near: Vec<usize> = vec![h.len().saturating_sub(3), h.len() - 1, h.len(), (h.len() + 1).min(all.len())];
    let mut cuts = gen::cuts(r, all.len(), &near, seg);
    if bulk > 0 {
        // every piece has the whole head scanned again
        r.shuffle(&mut cuts);
        cuts.truncate(12);
        cuts.sort_unstable();
    }
    let cap = *r.pick(&[0, 16, 8192]);
    c.note(format!("{} head {} then {} bytes, {:?}", if request { "request" } else { "response" }, show(&h), t.len(), seg));
    let steps = gen::at_cuts(&all, &cuts);
    guard(|| {
        let mut buf = BytesMut::with_capacity(cap);
        let mut fed = 0;
        let mut ends: Vec<usize> = cuts.clone();
        ends.push(all.len());
        ends.sort_unstable();
        ends.dedup();
        let mut got = None;
        for e in ends {
            buf.extend_from_slice(&all[fed..e]);
            fed = e;
            let before = buf.clone();
            match decode(request, &mut buf) {
                Err(e) => viol!("error after {} bytes: {}", fed, e),
                Ok(None) => {
                    ensure!(fed < h.len(), "a head of {} bytes is still incomplete after {}", h.len(), fed);
                    ensure!(buf == before, "an incomplete head was consumed: {} bytes left of {}", buf.len(), before.len());
                }
                Ok(Some(s)) => {
                    ensure!(fed >= h.len(), "{} bytes of a head of {} were taken for a whole one", fed, h.len());
                    ensure!(buf == all[h.len()..fed], "after the head {} bytes remain, {} followed: {} / {}", buf.len(), fed - h.len(), show(&buf), show(&all[h.len()..fed]));
                    got = Some(s);
                    break;
                }
            }
        }
        match got {
            None => viol!("never decoded"),
            Some(g) => ensure!(g == want, "decoded {}, sent {}", trunc(&format!("{:?}", g), 700), trunc(&format!("{:?}", want), 700)),
        }
        Ok(())
    })?;
    c.ev("heads_decoded", 1);
    c.ev("bytes_following", t.len() as u64);
    c.seen("segmentation_lengths", (cuts.len() as u64) << 32 | h.len() as u64);
    // the same through a framed stream
    if c.rng.chance(1, 2) {
        let s = Scripted::new(steps, End::Block).asy();
        let ss = [s.clone()];
        let (got, rest) = guard(|| {
            if request {
                let f: Framed<Scripted, _> = HttpServerCodec.framed(s.clone());
                match drive(f.into_future(), &ss)? {
                    D::Done((Some(i), f)) => {
                        let p = f.into_parts();
                        ensure!(p.write_buf.is_empty(), "{} bytes to write out of nowhere", p.write_buf.len());
                        Ok((req_seen(&i), p.read_buf.to_vec()))
                    }
                    D::Done((None, _)) => viol!("stream ended"),
                    D::Err((e, _)) => viol!("error {}", e),
                    D::Idle => viol!("still waiting after the whole head"),
                }
            } else {
                let f: Framed<Scripted, _> = HttpClientCodec.framed(s.clone());
                match drive(f.into_future(), &ss)? {
                    D::Done((Some(i), f)) => {
                        let p = f.into_parts();
                        Ok((res_seen(&i), p.read_buf.to_vec()))
                    }
                    D::Done((None, _)) => viol!("stream ended"),
                    D::Err((e, _)) => viol!("error {}", e),
                    D::Idle => viol!("still waiting after the whole head"),
                }
            }
        })?;
        ensure!(got == want, "framed: decoded {:?}, sent {:?}", got, want);
        let mut rest = rest;
        rest.extend_from_slice(&s.unread());
        ensure!(rest == t, "framed: {} bytes left behind the head, {} were sent", rest.len(), t.len());
        c.ev("framed_heads", 1);
    }
    c.eval(hash(&all) ^ cuts.len() as u64);
    c.sample(|| format!("{} + {} bytes {:?} -> {:?}", show(&h), t.len(), seg, want));
    Ok(())
}
/// where the first head ends: behind the first empty line after the leading empty lines
fn end_of(b: &[u8]) -> Option<usize> {
    let start = b.iter().take_while(|x| **x == b'\r' || **x == b'\n').count();
    let mut i = start;
    while i < b.len() {
        if b[i] == b'\n' {
            if b[i + 1..].starts_with(b"\n") {
                return Some(i + 2);
            }
            if b[i + 1..].starts_with(b"\r\n") {
                return Some(i + 3);
            }
        }
        i += 1;
    }
    None
}
fn feed(request: bool, b: &[u8], cuts: &[usize]) -> Result<(Option<Result<Seen, ()>>, Vec<u8>), Fail> {
    let mut buf = BytesMut::new();
    let mut ends = cuts.to_vec();
    ends.push(b.len());
    ends.sort_unstable();
    let mut p = 0;
    for e in ends {
        buf.extend_from_slice(&b[p..e]);
        p = e;
        let before = buf.clone();
        match decode(request, &mut buf) {
            Ok(None) => ensure!(buf == before, "an incomplete head was consumed: {} left of {}", buf.len(), before.len()),
            Ok(Some(s)) => {
                buf.extend_from_slice(&b[p..]);
                return Ok((Some(Ok(s)), buf.to_vec()));
            }
            Err(_) => {
                buf.extend_from_slice(&b[p..]);
                return Ok((Some(Err(())), buf.to_vec()));
            }
        }
    }
    Ok((None, buf.to_vec()))
}
fn broken(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let request = r.chance(1, 2);
    let (mut b, _) = head(r, request);
    let must_fail = r.chance(1, 2);
    if must_fail {
        // a complete head that cannot be parsed
        let e = end_of(&b).unwrap_or(b.len());
        b.truncate(e);
        let start = b.iter().take_while(|x| **x == b'\r' || **x == b'\n').count();
        let nl = start + b[start..].iter().position(|x| *x == b'\n').unwrap();
        let bad: Vec<u8> = match r.below(9) {
            0 => b"bad name: x\r\n".to_vec(),
            1 => b"nocolon\r\n".to_vec(),
            2 => b"x: a\0b\r\n".to_vec(),
            3 => b": no name\r\n".to_vec(),
            4 => b"x\x01: y\r\n".to_vec(),
            5 => b" folded\r\n".to_vec(),
            6 => (0..130).flat_map(|i| format!("x{}: y\r\n", i).into_bytes()).collect(),
            7 => {
                b.drain(start..nl + 1);
                b.splice(start..start, r.pick(&[&b"GET /\r\n"[..], b"GET\r\n", b"GET / HTTP/1\r\n", b"GET / HTTP/2.0\r\n", b"GE(T / HTTP/1.1\r\n", b"HTTP/1.1\r\n", b"HTTP/1.1 10\r\n", b"HTTP/1.1 abc OK\r\n", b"HTTP/x 200 OK\r\n", b"\x16\x03\x01\r\n", b"GET  / HTTP/1.1 x\r\n"]).iter().cloned());
                vec![]
            }
            _ => b"x: y\rz\r\n".to_vec(),
        };
        if !bad.is_empty() {
            b.splice(nl + 1..nl + 1, bad);
        }
        let e = end_of(&b).unwrap_or(b.len());
        b.truncate(e);
        let t = tail(r);
        b.extend(t);
    } else {
        let t = tail(r);
        b.extend(t);
        let n = r.range(1, 4);
        heads::mutate(r, &mut b, n);
    }
    let seg = *r.pick(&gen::SEGS);
    let seg = if b.len() > 20_000 && seg == gen::Seg::Bytes { gen::Seg::Random } else { seg };
    let cuts = gen::cuts(r, b.len(), &[], seg);
    c.note(format!("{} {} in {} pieces", if request { "request" } else { "response" }, show(&b), cuts.len() + 1));
    let (whole, rest) = guard(|| feed(request, &b, &[]))?;
    let (split, rest2) = guard(|| feed(request, &b, &cuts))?;
    ensure!(whole == split, "in one piece {:?}, in pieces {:?}", whole.as_ref().map(|x| x.is_ok()), split.as_ref().map(|x| x.is_ok()));
    match (&whole, end_of(&b)) {
        (None, None) => {
            ensure!(rest == b && rest2 == b, "an incomplete head was consumed");
            c.ev("incomplete", 1);
        }
        (None, Some(e)) => viol!("a complete head of {} bytes is met with silence", e),
        (Some(Ok(_)), None) => viol!("an incomplete head was decoded"),
        (Some(Ok(s)), Some(e)) => {
            ensure!(rest == b[e..] && rest2 == b[e..], "{} bytes remain behind the head, {} followed", rest.len(), b.len() - e);
            if must_fail {
                viol!("decoded {:?}", s);
            }
            c.ev("mutants_decoded", 1);
        }
        (Some(Err(())), _) => {
            c.ev("refused", 1);
        }
    }
    c.eval(hash(&b));
    Ok(())
}
fn roundtrip(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let version = if r.chance(1, 4) { HttpVersion::Http10 } else { HttpVersion::Http11 };
    let mut headers = Headers::new();
    let mut fields: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let n = if r.chance(1, 10) { r.range(30, 60) } else { r.below(8) };
    for _ in 0..n {
        let name = match r.below(4) {
            0 => token(r, 14),
            1 => "Sec-WebSocket-Protocol".to_string(),
            _ => other_name(r),
        };
        if fields.contains_key(&name.to_ascii_lowercase()) {
            continue;
        }
        let k = if r.chance(1, 5) { 2 } else { 1 };
        let big = r.chance(1, 30);
        let vals: Vec<Vec<u8>> = (0..k).map(|_| if big { value(r, 4000) } else { value(r, 50) }.into_bytes()).collect();
        headers.set_raw(name.clone(), vals.clone());
        fields.insert(name.to_ascii_lowercase(), vals);
    }
    let before = if r.chance(1, 2) { r.bytes(9) } else { vec![] };
    let cap = *r.pick(&[0usize, 8, 64, 8192]);
    let mut buf = BytesMut::with_capacity(cap.max(before.len()));
    buf.extend_from_slice(&before);
    if r.chance(1, 2) {
        let method = match r.below(12) {
            0 => Method::Options,
            1 => Method::Get,
            2 => Method::Post,
            3 => Method::Put,
            4 => Method::Delete,
            5 => Method::Head,
            6 => Method::Trace,
            7 => Method::Connect,
            8 => Method::Patch,
            9 => Method::Extension(format!("X{}", alnum(r, 8))),
            _ => Method::Get,
        };
        let uri = match r.below(6) {
            0 => RequestUri::Star,
            1 => RequestUri::AbsoluteUri(Url::parse(&format!("http://h{}.test:{}/{}?{}", r.below(99), r.range(1, 65535), alnum(r, 8), alnum(r, 8))).unwrap()),
            2 => RequestUri::Authority(format!("h{}.test:{}", r.below(99), r.range(1, 65535))),
            3 => RequestUri::AbsolutePath(format!("/{}", "long".repeat(r.below(2500)))),
            _ => RequestUri::AbsolutePath(target(r)),
        };
        c.note(format!("{} {} {} {:?}", method, trunc(&uri.to_string(), 200), version, fields));
        let got = guard(|| {
            let item = Incoming { version, subject: (method.clone(), uri.clone()), headers };
            if let Err(e) = HttpClientCodec.encode(item, &mut buf) {
                viol!("encode: {}", e);
            }
            ensure!(buf.len() >= before.len() && buf[..before.len()] == before[..], "what was in the buffer is gone");
            let mut b = buf.split_off(before.len());
            match HttpServerCodec.decode(&mut b) {
                Ok(Some(i)) => {
                    ensure!(b.is_empty(), "{} bytes behind the encoded head", b.len());
                    Ok(i)
                }
                x => viol!("own request not understood: {:?} {}", x.map(|x| x.is_some()).map_err(|e| e.to_string()), show(&buf)),
            }
        })?;
        ensure!(got.subject.0 == method, "method {:?} became {:?}", method, got.subject.0);
        ensure!(got.subject.1 == uri, "target {:?} became {:?}", uri, got.subject.1);
        ensure!(got.version == version, "version {:?} became {:?}", version, got.version);
        let f = fields_of(&got.headers);
        ensure!(f == fields, "fields {} became {}", trunc(&format!("{:?}", fields), 800), trunc(&format!("{:?}", f), 800));
        c.seen("methods", hash_s(&method.to_string()));
        c.ev("requests", 1);
        c.eval(hash_s(&format!("{}{}{:?}", method, uri, fields)));
    } else {
        let code = r.range(100, 599) as u16;
        let status = StatusCode::from_u16(code);
        c.note(format!("{} {} {:?}", status, version, fields));
        let got = guard(|| {
            let item = Incoming { version, subject: status, headers };
            if let Err(e) = HttpServerCodec.encode(item, &mut buf) {
                viol!("encode: {}", e);
            }
            ensure!(buf.len() >= before.len() && buf[..before.len()] == before[..], "what was in the buffer is gone");
            let mut b = buf.split_off(before.len());
            match HttpClientCodec.decode(&mut b) {
                Ok(Some(i)) => {
                    ensure!(b.is_empty(), "{} bytes behind the encoded head", b.len());
                    Ok(i)
                }
                x => viol!("own response not understood: {:?}", x.map(|x| x.is_some()).map_err(|e| e.to_string())),
            }
        })?;
        ensure!((got.subject.0) == code, "status {} became {}", code, got.subject.0);
        ensure!(got.version == version, "version {:?} became {:?}", version, got.version);
        let f = fields_of(&got.headers);
        ensure!(f == fields, "fields {} became {}", trunc(&format!("{:?}", fields), 800), trunc(&format!("{:?}", f), 800));
        c.seen("statuses", code as u64);
        c.ev("responses", 1);
        c.eval(hash_s(&format!("{}{:?}", code, fields)));
    }
    Ok(())
}
/// end of stream inside a head is not a head
fn ended(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let request = r.chance(1, 2);
    let (h, _) = head(r, request);
    let cut = r.below(h.len());
    c.note(format!("{} of {} bytes of {}", cut, h.len(), show(&h)));
    let (steps, _) = gen::segment(&mut c.rng, &h[..cut], &[]);
    let s = Scripted::new(steps, End::Eof).asy();
    let ss = [s.clone()];
    guard(|| {
        let got = if request {
            match drive(HttpServerCodec.framed(s.clone()).into_future(), &ss)? {
                D::Done((i, _)) => Some(i.is_some()),
                D::Err(_) => None,
                D::Idle => viol!("waits after the end"),
            }
        } else {
            match drive(HttpClientCodec.framed(s.clone()).into_future(), &ss)? {
                D::Done((i, _)) => Some(i.is_some()),
                D::Err(_) => None,
                D::Idle => viol!("waits after the end"),
            }
        };
        ensure!(got != Some(true), "a head was made of {} of {} bytes", cut, h.len());
        let blank = h[..cut].iter().all(|b| *b == b'\r' || *b == b'\n');
        ensure!(got.is_none() || blank, "the end of the stream within a head went unreported");
        Ok(())
    })?;
    c.ev("ends_within_a_head", 1);
    c.eval(hash(&h[..cut]));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("distinct byte streams and round-trip inputs; an incomplete head must leave the buffer byte for byte, a complete one exactly what follows it");
    x.assume("heads of 100 or more fields or over the HTTP library's buffer limit count as unparsable");
    x.run("good", x.q(60_000, 1_500_000), good);
    x.run("huge", x.q(500, 8_000), huge);
    x.run("broken", x.q(60_000, 1_500_000), broken);
    x.run("roundtrip", x.q(60_000, 1_500_000), roundtrip);
    x.run("ended", x.q(20_000, 400_000), ended);
    x.need("heads_decoded", 10_000);
    x.need("framed_heads", 5_000);
    x.need("huge_heads", 400);
    x.need("refused", 5_000);
    x.need("incomplete", 2_000);
    x.need("mutants_decoded", 500);
    x.need("requests", 5_000);
    x.need("responses", 5_000);
}
