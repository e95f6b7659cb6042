//! C19: handshake header values parse and format faithfully.
use crate::core::*;
use crate::crypto::{accept_for, b64, b64dec};
use crate::heads::{self, Head};
use crate::hs;
use crate::srv::{ext, ext_text, list_fields, mk_ext, tok, un_ext};
use bytes::BytesMut;
use hyper::header::{Header, HeaderFormat, Headers};
use std::str::FromStr;
use tokio_codec::Decoder;
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::header::extensions::Extension;
use websocket::header::{Origin, WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};
use websocket_base::header::{WebSocketAccept as AcceptLL, WebSocketKey as KeyLL};

type Ext = (String, Vec<(String, Option<String>)>);

fn one_field(h: &Headers, name: &str) -> Result<String, Fail> {
    let t = h.to_string();
    let head = match hs::parse_head(format!("X\r\n{}\r\n", t).as_bytes()) {
        Ok(Some(h)) => h,
        x => viol!("formatted header {:?} is not a header: {:?}", t, x),
    };
    let v = head.all(name);
    ensure!(head.fields.len() == 1 && v.len() == 1, "formatted as {:?} instead of one {} field", t, name);
    Ok(v[0].to_string())
}
/// through the text of a whole head, as the peer would read it
fn through_head(head: &Head, request: bool) -> Result<Headers, Fail> {
    let mut b = BytesMut::from(head.encode());
    Ok(if request {
        match HttpServerCodec.decode(&mut b) {
            Ok(Some(r)) => r.headers,
            x => viol!("head {:?} not understood: {:?}", head.show(), x.map(|_| ()).map_err(|e| e.to_string())),
        }
    } else {
        match HttpClientCodec.decode(&mut b) {
            Ok(Some(r)) => r.headers,
            x => viol!("head {:?} not understood: {:?}", head.show(), x.map(|_| ()).map_err(|e| e.to_string())),
        }
    })
}
fn new_head(r: &mut Rng) -> (Head, bool) {
    let request = r.chance(1, 2);
    (Head { first: if request { "GET / HTTP/1.1".into() } else { "HTTP/1.1 101 X".into() }, fields: vec![] }, request)
}
fn protocols(c: &mut Case) -> Res {
    let n = if c.rng.chance(1, 100) { c.rng.range(60, 400) } else { c.rng.range(1, 9) };
    let max = *c.rng.pick(&[1, 3, 12, 80]);
    let v: Vec<String> = (0..n).map(|_| tok(&mut c.rng, max)).collect();
    c.note(format!("{:?}", v));
    guard(|| {
        let p = WebSocketProtocol(v.clone());
        let mut h = Headers::new();
        h.set(p.clone());
        let text = one_field(&h, "Sec-WebSocket-Protocol")?;
        let els: Vec<&str> = text.split(',').map(|s| s.trim()).collect();
        ensure!(els == v, "protocols {:?} formatted as {:?}", v, text);
        ensure!(p.to_string() == text, "Display {:?} differs from the field {:?}", p.to_string(), text);
        let back = WebSocketProtocol::parse_header(&[text.clone().into_bytes()]).map_err(|e| Fail::V(format!("own text {:?} refused: {}", text, e)))?;
        ensure!(back == p && *back == v, "protocols {:?} came back as {:?}", v, back);
        Ok(())
    })?;
    let (mut head, request) = new_head(&mut c.rng);
    list_fields(&mut c.rng, &mut head, "Sec-WebSocket-Protocol", &v);
    c.ev("split_lists", (head.fields.len() > 1) as u64);
    let raw: Vec<Vec<u8>> = head.fields.iter().map(|f| f.1.clone()).collect();
    guard(|| {
        let h = through_head(&head, request)?;
        let got = h.get::<WebSocketProtocol>().map(|p| p.0.clone());
        ensure!(got.as_ref() == Some(&v), "{} gives protocols {:?}, wrote {:?}", head.show(), got, v);
        let got = WebSocketProtocol::parse_header(&raw).map(|p| p.0).map_err(|e| Fail::V(format!("{:?}: {}", raw, e)))?;
        ensure!(got == v, "fields {:?} give protocols {:?}, wrote {:?}", raw, got, v);
        // re-formatting what was parsed gives the same list again
        let again = h.get::<WebSocketProtocol>().unwrap().to_string();
        let els: Vec<&str> = again.split(',').map(|s| s.trim()).collect();
        ensure!(els == v, "parsed protocols {:?} re-formatted as {:?}", v, again);
        Ok(())
    })?;
    c.ev("protocol_lists", 1);
    c.eval(hash_s(&format!("{:?}{:?}", v, raw)));
    Ok(())
}
fn extensions(c: &mut Case) -> Res {
    let n = if c.rng.chance(1, 100) { c.rng.range(60, 300) } else { c.rng.range(1, 6) };
    let mut v: Vec<Ext> = (0..n).map(|_| ext(&mut c.rng)).collect();
    if c.rng.chance(1, 4) {
        // quoted values keep their quotes
        let q = match c.rng.below(4) {
            0 => format!("\"{}={}\"", tok(&mut c.rng, 4), tok(&mut c.rng, 4)),
            1 => format!("{}==", tok(&mut c.rng, 6)),
            2 => String::new(),
            _ => format!("\"{}\"", tok(&mut c.rng, 6)),
        };
        v[0].1.push(("q".into(), Some(q)));
        c.ev("quoted_values", 1);
    }
    if c.rng.chance(1, 10) {
        for i in 0..30 {
            let value = if i % 2 == 0 { Some(i.to_string()) } else { None };
            v[0].1.push((format!("p{}", i), value));
        }
    }
    c.note(format!("{:?}", v));
    let lib: Vec<Extension> = v.iter().map(mk_ext).collect();
    guard(|| {
        for (e, l) in v.iter().zip(&lib) {
            let t = l.to_string();
            ensure!(crate::c14::parse_ext(&t) == *e, "extension {:?} formatted as {:?}", e, t);
            let back = Extension::from_str(&t).map_err(|x| Fail::V(format!("own text {:?} refused: {}", t, x)))?;
            ensure!(back == *l && un_ext(&back) == *e, "extension {:?} came back as {:?} from {:?}", e, back, t);
        }
        let x = WebSocketExtensions(lib.clone());
        let mut h = Headers::new();
        h.set(x.clone());
        let text = one_field(&h, "Sec-WebSocket-Extensions")?;
        let els: Vec<Ext> = text.split(',').map(|s| crate::c14::parse_ext(s.trim())).collect();
        ensure!(els == v, "extensions {:?} formatted as {:?}", v, text);
        ensure!(x.to_string() == text, "Display {:?} differs from the field {:?}", x.to_string(), text);
        let back = WebSocketExtensions::parse_header(&[text.clone().into_bytes()]).map_err(|e| Fail::V(format!("own text {:?} refused: {}", text, e)))?;
        ensure!(back == x && back.iter().map(un_ext).collect::<Vec<_>>() == v, "extensions {:?} came back as {:?}", v, back);
        Ok(())
    })?;
    let texts: Vec<String> = v.iter().map(|e| ext_text(&mut c.rng, e)).collect();
    let (mut head, request) = new_head(&mut c.rng);
    list_fields(&mut c.rng, &mut head, "Sec-WebSocket-Extensions", &texts);
    c.ev("split_lists", (head.fields.len() > 1) as u64);
    let raw: Vec<Vec<u8>> = head.fields.iter().map(|f| f.1.clone()).collect();
    guard(|| {
        let h = through_head(&head, request)?;
        let got: Option<Vec<Ext>> = h.get::<WebSocketExtensions>().map(|p| p.0.iter().map(un_ext).collect());
        ensure!(got.as_ref() == Some(&v), "{} gives extensions {:?}, wrote {:?}", head.show(), got, v);
        let got: Vec<Ext> = WebSocketExtensions::parse_header(&raw).map(|p| p.0.iter().map(un_ext).collect()).map_err(|e| Fail::V(format!("{:?}: {}", raw, e)))?;
        ensure!(got == v, "fields {:?} give extensions {:?}, wrote {:?}", raw, got, v);
        Ok(())
    })?;
    c.ev("extension_lists", 1);
    c.ev("extension_parameters", v.iter().map(|e| e.1.len() as u64).sum());
    c.eval(hash_s(&format!("{:?}{:?}", v, raw)));
    Ok(())
}
fn canonical(s: &str, n: usize) -> Option<Vec<u8>> {
    match b64dec(s) {
        Some(v) if v.len() == n && b64(&v) == s => Some(v),
        _ => None,
    }
}
fn b64_text(r: &mut Rng, n: usize) -> String {
    let al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let good = b64(&r.bytes(n));
    let mut s = good.clone().into_bytes();
    let last = good.trim_end_matches('=').len();
    match r.below(14) {
        0 => {
            let i = r.below(last);
            s[i] = *r.pick(b"!-_*. ~=,;\"'?@\\^`{|}\x7f\x00\x1f");
        }
        1 => s.truncate(last),
        2 => {
            s.truncate(last);
            for _ in 0..r.below(5) {
                s.push(b'=');
            }
        }
        3 => {
            // every setting of the unused bits
            let v = al.iter().position(|c| *c == s[last - 1]).unwrap();
            let k = if n % 3 == 1 { 0x30 } else { 0x3c };
            s[last - 1] = al[(v & k) | r.below(64 - k)];
        }
        4 => {
            let i = r.below(s.len() + 1);
            s.insert(i, *r.pick(b" \t\r\n=A"));
        }
        5 => {
            let i = r.below(s.len());
            s.remove(i);
        }
        6 => {
            let m = r.range(0, 40);
            s = b64(&r.bytes(m)).into_bytes();
        }
        7 => s = good.to_lowercase().into_bytes(),
        8 => {
            // url safe alphabet
            s = good.replace('+', "-").replace('/', "_").into_bytes();
        }
        9 => {
            let m = r.range(0, 32);
            s = (0..m).map(|_| *r.pick(al)).collect();
        }
        10 => s = vec![*r.pick(al); s.len()],
        11 => s.extend_from_slice(&s.clone()),
        _ => {}
    }
    String::from_utf8_lossy(&s).to_string()
}
fn values(c: &mut Case) -> Res {
    for (n, what) in [(16usize, "key"), (20, "accept value")] {
        let s = b64_text(&mut c.rng, n);
        c.note(format!("{} {:?}", what, s));
        let want = canonical(&s, n);
        guard(|| {
            let got: [Option<String>; 2] = if n == 16 {
                [KeyLL::from_str(&s).ok().map(|k| b64(&k.0)), WebSocketKey::from_str(&s).ok().map(|k| k.serialize())]
            } else {
                [AcceptLL::from_str(&s).ok().map(|k| k.serialize()), WebSocketAccept::from_str(&s).ok().map(|k| k.serialize())]
            };
            for g in got {
                ensure!(g.is_some() == want.is_some(), "{} {:?} is {}canonical base64 of {} bytes but was {}", what, s, if want.is_some() { "" } else { "not " }, n, if g.is_some() { "taken" } else { "refused" });
                if let Some(t) = g {
                    ensure!(t == s, "{} {:?} came back as {:?}", what, s, t);
                }
            }
            let raw = [s.clone().into_bytes()];
            let viaheader = if n == 16 { WebSocketKey::parse_header(&raw).is_ok() } else { WebSocketAccept::parse_header(&raw).is_ok() };
            ensure!(viaheader == want.is_some(), "{} field {:?}: parsed {}", what, s, viaheader);
            // a value given twice is no value
            let twice = [s.clone().into_bytes(), s.clone().into_bytes()];
            let two = if n == 16 { WebSocketKey::parse_header(&twice).is_ok() } else { WebSocketAccept::parse_header(&twice).is_ok() };
            ensure!(!two, "two {} fields {:?} were taken for one", what, s);
            Ok(())
        })?;
        c.ev(if want.is_some() { "canonical_values" } else { "non_canonical_values" }, 1);
        c.eval(hash_s(&s) ^ n as u64);
    }
    Ok(())
}
fn accept(c: &mut Case) -> Res {
    let mut k = [0u8; 16];
    match c.idx {
        i if i < 128 => k[i as usize / 8] = 1 << (i % 8),
        i if i < 256 => {
            k = [0xff; 16];
            k[(i as usize - 128) / 8] ^= 1 << (i % 8);
        }
        i if i < 512 => k = [i as u8; 16],
        _ => k = heads::b16(&mut c.rng),
    }
    let text = b64(&k);
    let want = accept_for(&text);
    c.note(format!("key {}", text));
    let mut other = k;
    other[c.rng.below(16)] ^= 1 << c.rng.below(8);
    guard(|| {
        let key = WebSocketKey::from_array(k);
        ensure!(key.serialize() == text && KeyLL(k).serialize() == text, "key bytes {} serialize as {} / {}", hex(&k), key.serialize(), KeyLL(k).serialize());
        let got = [WebSocketAccept::new(&key).serialize(), AcceptLL::new(&KeyLL(k)).serialize()];
        for g in got {
            ensure!(g == want, "accept value {} for key {}, should be {}", g, text, want);
        }
        ensure!(WebSocketAccept::from_str(&want).map(|a| a == WebSocketAccept::new(&key)).unwrap_or(false), "accept value {} for key {} is not recognised", want, text);
        ensure!(WebSocketAccept::new(&WebSocketKey::from_array(other)) != WebSocketAccept::new(&key), "keys {} and {} have the same accept value", text, b64(&other));
        ensure!(WebSocketKey::from_array(other) != key, "keys {} and {} are equal", text, b64(&other));
        let mut h = Headers::new();
        h.set(key);
        ensure!(one_field(&h, "Sec-WebSocket-Key")? == text, "key field {:?}", h.to_string());
        let mut h = Headers::new();
        h.set(WebSocketAccept::new(&key));
        ensure!(one_field(&h, "Sec-WebSocket-Accept")? == want, "accept field {:?}", h.to_string());
        Ok(())
    })?;
    c.ev("accept_values", 1);
    c.eval(hash(&k));
    Ok(())
}
fn single(c: &mut Case) -> Res {
    // versions
    let v = match c.rng.below(4) {
        0 => "13".to_string(),
        1 => c.rng.range(0, 300).to_string(),
        2 => (c.rng.pick(&["013", "13.0", "1", "3", "130", "-13"])).to_string(),
        _ => heads::value(&mut c.rng, 10),
    };
    let o = match c.rng.below(4) {
        0 => "null".to_string(),
        1 => format!("http://{}.example:{}", heads::alnum(&mut c.rng, 8), c.rng.range(1, 65535)),
        _ => heads::value(&mut c.rng, 60),
    };
    c.note(format!("version {:?} origin {:?}", v, o));
    let (mut head, request) = new_head(&mut c.rng);
    head.push(&heads::casing(&mut c.rng, "Sec-WebSocket-Version"), &v);
    head.push(&heads::casing(&mut c.rng, "Origin"), &o);
    guard(|| {
        let want = if v == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(v.clone()) };
        let mut h = Headers::new();
        h.set(want.clone());
        ensure!(one_field(&h, "Sec-WebSocket-Version")? == v, "version {:?} formatted as {:?}", v, h.to_string());
        ensure!(want.to_string() == v, "version {:?} displayed as {:?}", v, want.to_string());
        let back = WebSocketVersion::parse_header(&[v.clone().into_bytes()]).ok();
        ensure!(back.as_ref() == Some(&want), "version {:?} parsed as {:?}", v, back);
        let w = Origin(o.clone());
        let mut h = Headers::new();
        h.set(w.clone());
        ensure!(one_field(&h, "Origin")? == o, "origin {:?} formatted as {:?}", o, h.to_string());
        ensure!(w.to_string() == o && *w == o, "origin {:?} displayed as {:?}", o, w.to_string());
        let back = Origin::parse_header(&[o.clone().into_bytes()]).ok();
        ensure!(back.as_ref() == Some(&w), "origin {:?} parsed as {:?}", o, back);
        let h = through_head(&head, request)?;
        ensure!(h.get::<WebSocketVersion>() == Some(&want) && h.get::<Origin>() == Some(&w), "{} gives {:?} {:?}", head.show(), h.get::<WebSocketVersion>(), h.get::<Origin>());
        Ok(())
    })?;
    c.ev("versions_and_origins", 1);
    c.eval(hash_s(&v) ^ hash_s(&o));
    Ok(())
}
fn names(c: &mut Case) -> Res {
    fn n<H: Header + HeaderFormat>() -> &'static str {
        H::header_name()
    }
    use websocket_base::header::names as ll;
    for (a, b) in [
        (n::<WebSocketAccept>(), "Sec-WebSocket-Accept"),
        (n::<WebSocketKey>(), "Sec-WebSocket-Key"),
        (n::<WebSocketProtocol>(), "Sec-WebSocket-Protocol"),
        (n::<WebSocketExtensions>(), "Sec-WebSocket-Extensions"),
        (n::<WebSocketVersion>(), "Sec-WebSocket-Version"),
        (n::<Origin>(), "Origin"),
        (ll::ACCEPT, "Sec-WebSocket-Accept"),
        (ll::KEY, "Sec-WebSocket-Key"),
        (ll::PROTOCOL, "Sec-WebSocket-Protocol"),
        (ll::EXTENSIONS, "Sec-WebSocket-Extensions"),
    ] {
        ensure!(a.eq_ignore_ascii_case(b), "header name {} instead of {}", a, b);
        c.eval(hash_s(b));
    }
    Ok(())
}
pub fn run(x: &Ctx) {
    x.scale(5);
    x.rule("a case generates a value of a handshake header (protocol list, extension list with parameters, key, accept value, version, origin), formats it with the library and reads it back with an independent reader and with the library, and parses independently written text, with lists split over fields, casing and blanks varied, through parse_header and through whole request and response heads; key and accept texts around the canonical form are judged by an independent base64 and SHA-1; distinct by value and text");
    x.assume("list elements and parameters are tokens, or values in quotes (which stay part of the value), with equals signs, or empty");
    x.run("protocols", x.q(40_000, 1_500_000), protocols);
    x.run("extensions", x.q(40_000, 1_500_000), extensions);
    x.run("values", x.q(120_000, 5_000_000), values);
    x.run("accept", x.q(60_000, 3_000_000), accept);
    x.run("single", x.q(20_000, 500_000), single);
    x.run("names", 1, names);
    x.need("protocol_lists", 10_000);
    x.need("extension_lists", 10_000);
    x.need("extension_parameters", 20_000);
    x.need("split_lists", 10_000);
    x.need("canonical_values", 20_000);
    x.need("non_canonical_values", 20_000);
    x.need("accept_values", 10_000);
}
