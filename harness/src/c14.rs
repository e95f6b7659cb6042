//! C14: an accepted handshake is answered correctly.
use crate::c13::{script, verdict};
use crate::core::*;
use crate::crypto::{accept_for, b64};
use crate::gen;
use crate::heads;
use crate::hs;
use crate::srv::*;
use crate::stream::*;

pub const REQUIRED: [&str; 3] = ["Upgrade", "Connection", "Sec-WebSocket-Accept"];

/// fields with names unknown to both sides; several values for one name keep their order
pub fn extra(r: &mut Rng, tag: &str, n: usize) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for i in 0..n {
        let name = match r.below(8) {
            1 if r.chance(1, 2) => {
                // fields HTTP libraries know and have opinions on
                let known = [
                    ("Content-Length", "0"), ("Content-Type", "text/plain; charset=utf-8"), ("WWW-Authenticate", "Basic realm=\"x\""), ("Retry-After", "120"),
                    ("Location", "https://example.com/other"), ("Allow", "GET, HEAD"), ("Vary", "Origin"), ("ETag", "\"abc\""), ("Host", "example.com"),
                    ("Sec-WebSocket-Version", "13"), ("Transfer-Encoding", "identity"), ("Strict-Transport-Security", "max-age=1"), ("Expires", "0"),
                    ("Origin", "https://example.com"), ("Keep-Alive", "timeout=5"), ("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="),
                ];
                let (n, x) = *r.pick(&known);
                let name = if r.chance(1, 3) { heads::casing(r, n) } else { n.to_string() };
                // one place only: the other could hold the same name
                if tag == "c" && !v.iter().any(|(k, _): &(String, Vec<u8>)| k.eq_ignore_ascii_case(&name)) {
                    v.push((name, x.as_bytes().to_vec()));
                }
                continue;
            }
            0 => ["Server", "Date", "Set-Cookie", "Cache-Control", "Via", "Access-Control-Allow-Origin"][i % 6].to_string() + if tag == "p" { "-Pre" } else { "" },
            _ => format!("X-{}{}-{}", tag, i, heads::alnum(r, 10)),
        };
        if v.iter().any(|(k, _): &(String, Vec<u8>)| k.eq_ignore_ascii_case(&name)) {
            continue;
        }
        let m = if r.chance(1, 5) { r.range(2, 4) } else { 1 };
        for _ in 0..m {
            let max = if r.chance(1, 100) {
                30_000
            } else if r.chance(1, 20) {
                3000
            } else {
                40
            };
            let x = heads::value(r, max).into_bytes();
            v.push((name.clone(), x));
        }
    }
    v
}
/// attempts to displace the fields that make the handshake
fn override_attempts(r: &mut Rng) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for n in REQUIRED {
        if r.chance(1, 2) {
            let x = match n {
                "Upgrade" => *r.pick(&["h2c", "foo", "websocket", "WebSocket, h2c"]),
                "Connection" => *r.pick(&["close", "keep-alive", "upgrade", "Upgrade, keep-alive"]),
                _ => *r.pick(&["s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "garbage", ""]),
            };
            let name = heads::casing(r, n);
            v.push((name.clone(), x.as_bytes().to_vec()));
            if r.chance(1, 3) {
                v.push((name, b"second".to_vec()));
            }
        }
    }
    v
}
pub fn grouped(f: &[(String, Vec<u8>)]) -> Vec<(String, Vec<String>)> {
    let mut o: Vec<(String, Vec<String>)> = vec![];
    for (n, v) in f {
        let n = n.to_ascii_lowercase();
        let v = String::from_utf8_lossy(v).trim().to_string();
        match o.iter_mut().find(|x| x.0 == n) {
            Some(x) => x.1.push(v),
            None => o.push((n, vec![v])),
        }
    }
    o.sort();
    o
}
pub fn grouped_head(h: &hs::Head, but: &[&str]) -> Vec<(String, Vec<String>)> {
    let f: Vec<(String, Vec<u8>)> =
        h.fields.iter().filter(|(n, _)| !but.iter().any(|b| n.eq_ignore_ascii_case(b))).map(|(n, v)| (n.clone(), v.clone().into_bytes())).collect();
    grouped(&f)
}
pub fn parse_ext(e: &str) -> (String, Vec<(String, Option<String>)>) {
    let mut it = e.split(';').map(|s| s.trim());
    let n = it.next().unwrap_or("").to_string();
    let p = it
        .map(|x| match x.find('=') {
            Some(i) => (x[..i].trim().to_string(), Some(x[i + 1..].trim().to_string())),
            None => (x.to_string(), None),
        })
        .collect();
    (n, p)
}
/// The bytes written are exactly one correct 101 response.
pub fn judge(who: &str, q: &Req, p: &AcceptPlan, w: &[u8]) -> Res {
    let show = || hex(w) + " = " + &trunc(&String::from_utf8_lossy(w), 2000);
    let h = match hs::parse_head(w) {
        Err(e) => viol!("{}: the response is malformed ({}): {}", who, e, show()),
        Ok(None) => viol!("{}: the response has no end: {}", who, show()),
        Ok(Some(h)) => h,
    };
    ensure!(h.len == w.len(), "{}: {} bytes follow the response: {}", who, w.len() - h.len, show());
    let mut first = h.first.splitn(3, ' ');
    let (v, s) = (first.next().unwrap_or(""), first.next().unwrap_or(""));
    ensure!(v == q.version, "{}: response version {:?} for a request with {}: {}", who, v, q.version, h.first);
    ensure!(s == "101", "{}: status {:?}: {}", who, s, h.first);
    ensure!(first.next().is_some(), "{}: no reason phrase separator in the status line {:?}", who, h.first);
    let up = h.all("Upgrade");
    ensure!(up.len() == 1 && up[0].eq_ignore_ascii_case("websocket"), "{}: Upgrade fields {:?}: {}", who, up, show());
    let co = h.all("Connection");
    ensure!(co.len() == 1 && h.list("Connection").len() == 1 && co[0].eq_ignore_ascii_case("upgrade"), "{}: Connection fields {:?}: {}", who, co, show());
    let want = accept_for(&b64(&q.key));
    ensure!(h.all("Sec-WebSocket-Accept") == vec![want.as_str()], "{}: accept {:?} instead of {} for key {}", who, h.all("Sec-WebSocket-Accept"), want, b64(&q.key));
    ensure!(h.list("Sec-WebSocket-Protocol") == p.protocols, "{}: protocols sent {:?}, chosen {:?}", who, h.list("Sec-WebSocket-Protocol"), p.protocols);
    let e: Vec<_> = h.list("Sec-WebSocket-Extensions").iter().map(|e| parse_ext(e)).collect();
    ensure!(e == p.extensions, "{}: extensions sent {:?}, chosen {:?}", who, e, p.extensions);
    if p.protocols.is_empty() {
        ensure!(h.all("Sec-WebSocket-Protocol").is_empty(), "{}: a protocol field although none was chosen", who);
    }
    if p.extensions.is_empty() {
        ensure!(h.all("Sec-WebSocket-Extensions").is_empty(), "{}: an extension field although none was chosen", who);
    }
    let mut f: Vec<(String, Vec<u8>)> = p.preset.clone();
    if p.use_with {
        f.extend(p.custom.clone());
    }
    f.retain(|(n, _)| !REQUIRED.iter().any(|x| n.eq_ignore_ascii_case(x)));
    let mut got = grouped_head(&h, &["Upgrade", "Connection", "Sec-WebSocket-Accept", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions"]);
    // a name given in both places: what was given last is sent; what was given first may be replaced by it
    let shared = |n: &str| p.use_with && p.preset.iter().any(|x| x.0.eq_ignore_ascii_case(n)) && p.custom.iter().any(|x| x.0.eq_ignore_ascii_case(n));
    let only: Vec<(String, Vec<u8>)> = f.iter().filter(|x| shared(&x.0)).cloned().collect();
    if !only.is_empty() {
        let last = grouped(&p.custom);
        for (n, both) in grouped(&only) {
            let want = &last.iter().find(|x| x.0 == n).unwrap().1;
            let sent = got.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or_default();
            ensure!(sent == *want || sent == both, "{}: {} sent as {:?}, the application gave {:?} with the acceptance (all its values: {:?})", who, n, sent, want, both);
        }
        got.retain(|x| !shared(&x.0));
        f.retain(|x| !shared(&x.0));
    }
    ensure!(got == grouped(&f), "{}: other fields sent {:?}, application's {:?}", who, got, grouped(&f));
    Ok(())
}
pub fn reported(who: &str, q: &Req, r: &Reported) -> Res {
    let want = Reported {
        protocols: q.protocols.clone(),
        extensions: q.extensions.clone(),
        key: Some(q.key),
        version: q.ws_version.clone(),
        origin: q.origin.clone(),
        uri: q.uri.clone(),
    };
    ensure!(*r == want, "{}: the request reported {:?} but is {:?}: {}", who, r, want, trunc(&q.show(), 900));
    Ok(())
}
/// what the client object reports of the handshake it sent
fn object(who: &str, p: &AcceptPlan, rec: &Rec) -> Res {
    let h = hs::parse_head(&rec.written).unwrap().unwrap();
    if let Some(x) = &rec.client_protocols {
        ensure!(*x == p.protocols, "{}: client reports protocols {:?}, chosen {:?}", who, x, p.protocols);
    }
    if let Some(x) = &rec.client_extensions {
        let e: Vec<_> = x.iter().map(|e| parse_ext(e)).collect();
        ensure!(e == p.extensions, "{}: client reports extensions {:?}, chosen {:?}", who, e, p.extensions);
    }
    if let Some(x) = &rec.client_headers {
        let f: Vec<(String, Vec<u8>)> = x.iter().flat_map(|(n, v)| v.iter().map(move |b| (n.clone(), b.clone()))).collect();
        ensure!(grouped(&f) == grouped_head(&h, &[]), "{}: client reports headers {:?}, sent {:?}", who, grouped(&f), grouped_head(&h, &[]));
    }
    Ok(())
}
pub fn plan(c: &mut Case, q: &Req) -> AcceptPlan {
    let r = &mut c.rng;
    let mut p = AcceptPlan::default();
    if r.chance(2, 3) {
        for _ in 0..if r.chance(1, 40) { r.range(50, 300) } else { r.below(4) } {
            let t = if !q.protocols.is_empty() && r.chance(2, 3) { r.pick(&q.protocols).clone() } else { tok(r, 12) };
            p.protocols.push(t);
        }
    }
    if r.chance(2, 3) {
        for _ in 0..if r.chance(1, 40) { r.range(30, 120) } else { r.below(4) } {
            let e = if !q.extensions.is_empty() && r.chance(2, 3) { r.pick(&q.extensions).clone() } else { ext(r) };
            p.extensions.push(e);
        }
    }
    p.use_with = r.chance(1, 2);
    p.many_ext = r.chance(1, 3);
    if r.chance(1, 3) {
        p.limits = Some((r.range(1, 1 << 20), r.range(1, 1 << 22)));
    }
    let n = if r.chance(1, 40) { r.range(20, 50) } else { r.below(5) };
    p.custom = extra(r, "c", n);
    let n = r.below(3);
    p.preset = extra(r, "p", n);
    if p.use_with && r.chance(1, 5) && !p.preset.is_empty() {
        // the same name in both places
        let n = r.pick(&p.preset).0.clone();
        let n = if r.chance(1, 2) { heads::casing(r, &n) } else { n };
        for _ in 0..r.range(1, 2) {
            let x = heads::value(r, 30).into_bytes();
            p.custom.push((n.clone(), x));
        }
    }
    if r.chance(1, 3) {
        p.custom.extend(override_attempts(r));
        p.preset.extend(override_attempts(r));
    }
    p
}
fn one(c: &mut Case, e: SE, q: &Req, p: &AcceptPlan) -> Res {
    let mut bytes = q.bytes();
    let head = bytes.len();
    if c.rng.chance(1, 4) && e != SE::Hyper {
        let n = c.rng.range(1, 60);
        bytes.extend(c.rng.bytes(n));
    }
    let steps = script(c, e, &bytes, head);
    let (wp, fp) = if on_socket(e) { (vec![], vec![]) } else { gen::wplan(&mut c.rng, e == SE::Async) };
    let rec = serve(e, q, steps, End::Eof, &What::Accept(p.clone()), wp, fp)?;
    verdict(e, q, &rec)?;
    let who = format!("{:?}", e);
    if let Some(x) = &rec.accept_err {
        viol!("{}: accept failed with {}: {}", who, x, trunc(&q.show(), 800));
    }
    judge(&who, q, p, &rec.written)?;
    match &rec.reported {
        Some(r) => reported(&who, q, r)?,
        None => hfail!("no report"),
    }
    object(&who, p, &rec)?;
    c.ev("responses_judged", 1);
    c.ev(&format!("responses_from_{:?}", e), 1);
    if p.use_with {
        c.ev("with_custom_headers", 1);
    }
    if !p.protocols.is_empty() {
        c.ev("with_protocols", 1);
    }
    if !p.extensions.is_empty() {
        c.ev("with_extensions", 1);
    }
    if p.preset.iter().chain(if p.use_with { p.custom.iter() } else { [].iter() }).any(|(n, _)| REQUIRED.iter().any(|x| n.eq_ignore_ascii_case(x))) {
        c.ev("override_attempts_withstood", 1);
    }
    c.seen("accept_values", hash(&q.key));
    c.eval(hash(&q.bytes()) ^ hash(&rec.written) ^ e as u64);
    Ok(())
}
/// line breaks in what the application supplies must not split the response
fn breaks(c: &mut Case) -> Res {
    let q = request(&mut c.rng, 0, false);
    let br = *c.rng.pick(&["\r\n", "\n", "\r", "\r\n\r\n", "\n\n", "\r\n "]);
    let nasty = format!("a{}X-Injected: yes", br);
    let mut p = AcceptPlan { use_with: true, ..AcceptPlan::default() };
    let k = c.rng.below(3);
    match k {
        0 => p.custom.push(("X-Mine".into(), nasty.clone().into_bytes())),
        1 => p.preset.push(("X-Mine".into(), nasty.clone().into_bytes())),
        _ => p.protocols.push(nasty.clone()),
    }
    let e = *c.rng.pick(&[SE::Sync, SE::Pair, SE::Async]);
    let b = q.bytes();
    let n = b.len();
    let rec = serve(e, &q, script(c, e, &b, n), End::Eof, &What::Accept(p), vec![], vec![])?;
    ensure!(rec.accept_err.is_none(), "{:?}: accept failed: {:?}", e, rec.accept_err);
    let h = match hs::parse_head(&rec.written) {
        Ok(Some(h)) => h,
        x => viol!("{:?}: response {:?} is malformed: {:?}", e, String::from_utf8_lossy(&rec.written), x),
    };
    ensure!(h.len == rec.written.len(), "{:?}: a line break in a supplied value ({:?}) ended the response early: {:?}", e, nasty, String::from_utf8_lossy(&rec.written));
    ensure!(h.all("X-Injected").is_empty(), "{:?}: a line break in a supplied value ({:?}) became a field: {:?}", e, nasty, String::from_utf8_lossy(&rec.written));
    c.ev("line_breaks_contained", 1);
    c.eval(hash(&rec.written));
    Ok(())
}
pub fn run(x: &Ctx) {
    x.scale(5);
    x.rule("a case generates a valid request (independent generator), an accept plan (protocols, extensions, extra headers set directly or through accept_with, limits, attempts to override the required fields), accepts on every server interface under short writes, and judges every byte written with an independent head parser, the reported request values with the generator's values, and the client object's view with what was sent; distinct by request, response and interface");
    x.assume("extra headers are not named Sec-WebSocket-Protocol/-Extensions (two different ways to choose those would conflict)");
    x.run("memory", x.q(9_000, 250_000), |c| {
        let mut q = request(&mut c.rng, 0, false);
        announce(c, &mut q);
        let p = plan(c, &q);
        c.note(format!("{} accept p={:?} e={:?} c={:?} pre={:?} with={}", q.show(), p.protocols, p.extensions, p.custom, p.preset, p.use_with));
        for e in [SE::Sync, SE::SyncTcpLike, SE::Pair, SE::Async] {
            one(c, e, &q, &p)?;
        }
        c.sample(|| trunc(&q.show(), 300));
        Ok(())
    });
    x.run("sockets", x.q(1_500, 20_000), |c| {
        let q = request(&mut c.rng, 0, false);
        let p = plan(c, &q);
        c.note(format!("{} accept p={:?} e={:?} c={:?} pre={:?} with={}", q.show(), p.protocols, p.extensions, p.custom, p.preset, p.use_with));
        for e in [SE::Server, SE::AServer, SE::Hyper] {
            one(c, e, &q, &p)?;
        }
        Ok(())
    });
    x.run("line_breaks", x.q(600, 10_000), breaks);
    x.need("responses_judged", 5000);
    x.need("with_custom_headers", 1000);
    x.need("with_protocols", 1000);
    x.need("with_extensions", 1000);
    x.need("override_attempts_withstood", 500);
    for e in [SE::Sync, SE::SyncTcpLike, SE::Pair, SE::Async, SE::Server, SE::AServer, SE::Hyper] {
        x.need(&format!("responses_from_{:?}", e), 200);
    }
}
