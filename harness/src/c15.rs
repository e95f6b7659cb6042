//! C15: refused and rejected handshakes hand everything back.
use crate::c13::{script, verdict};
use crate::c14::{extra, grouped, grouped_head};
use crate::core::*;
use crate::gen;
use crate::hs;
use crate::srv::*;
use crate::stream::*;
use std::io::ErrorKind;

fn joined(r: &Rec) -> Vec<u8> {
    let mut v = r.handed.clone().unwrap_or_default();
    v.extend_from_slice(&r.unread);
    v
}
fn parsed(who: &str, q: &Req, p: &Parsed) -> Res {
    ensure!(p.method == q.method && p.uri == q.uri && p.version == q.version, "{}: the request handed back is {} {} {}, sent {}", who, p.method, p.uri, p.version, q.head.first);
    let f: Vec<(String, Vec<u8>)> = p.fields.iter().flat_map(|(n, v)| v.iter().map(move |b| (n.clone(), b.clone()))).collect();
    ensure!(grouped(&f) == grouped(&q.head.fields), "{}: the request handed back has fields {:?}, sent {:?}", who, grouped(&f), grouped(&q.head.fields));
    Ok(())
}
fn tail(c: &mut Case, e: SE) -> Vec<u8> {
    if e == SE::Hyper || c.rng.chance(1, 4) {
        return vec![];
    }
    let n = match c.rng.below(6) {
        0 => 1,
        1 => c.rng.range(4000, 20000),
        _ => c.rng.range(1, 300),
    };
    let mut t = c.rng.bytes(n);
    if c.rng.chance(1, 4) {
        // another request
        t = hs::request();
    }
    t
}
fn refused(c: &mut Case, e: SE, q: &Req) -> Res {
    let mut bytes = q.bytes();
    let head = bytes.len();
    let t = tail(c, e);
    bytes.extend_from_slice(&t);
    let steps = script(c, e, &bytes, head);
    let rec = serve(e, q, steps, End::Eof, &What::Look, vec![], vec![])?;
    verdict(e, q, &rec)?;
    let who = format!("{:?} refusing {:?}", e, q.bad);
    ensure!(rec.written.is_empty(), "{}: {} bytes were written to the peer: {}", who, rec.written.len(), hex(&rec.written));
    ensure!(rec.stream_back, "{}: the stream was not handed back usable: {}", who, trunc(&q.show(), 500));
    if q.raw.is_none() {
        match &rec.parsed {
            None => viol!("{}: the parsed request was not handed back: {}", who, trunc(&q.show(), 500)),
            Some(p) => parsed(&who, q, p)?,
        }
        let j = joined(&rec);
        ensure!(e == SE::Hyper || j == t, "{}: {} bytes followed the request; handed back {} and left in the stream {}, which is not the same ({} / {})", who, t.len(), rec.handed.as_ref().map(|h| h.len()).unwrap_or(0), rec.unread.len(), hex(&j), hex(&t));
        if rec.handed.as_ref().map(|h| !h.is_empty()).unwrap_or(false) {
            c.ev("refusals_with_read_ahead", 1);
        }
    } else if e != SE::Hyper {
        let j = joined(&rec);
        ensure!(j.ends_with(&t), "{}: the {} bytes that followed were lost: {}", who, t.len(), hex(&j));
        c.ev("unparsable_heads", 1);
    }
    c.ev("refusals", 1);
    c.ev(&format!("refusals_{:?}", e), 1);
    c.eval(hash(&bytes) ^ e as u64);
    Ok(())
}
fn reject(c: &mut Case, e: SE, q: &Req) -> Res {
    let mut bytes = q.bytes();
    let head = bytes.len();
    let t = tail(c, e);
    bytes.extend_from_slice(&t);
    let steps = script(c, e, &bytes, head);
    let n = c.rng.below(4);
    let custom = extra(&mut c.rng, "c", n);
    let n = c.rng.below(3);
    let preset = extra(&mut c.rng, "p", n);
    let mut custom = custom;
    if c.rng.chance(1, 6) {
        custom.push(("Connection".into(), c.rng.pick(&["close", "keep-alive", "Close"]).as_bytes().to_vec()));
    }
    let with = c.rng.chance(2, 3);
    let (wp, fp) = if on_socket(e) { (vec![], vec![]) } else { gen::wplan(&mut c.rng, e == SE::Async) };
    let rec = serve(e, q, steps, End::Eof, &What::Reject { custom: custom.clone(), with, preset: preset.clone() }, wp, fp)?;
    verdict(e, q, &rec)?;
    let who = format!("{:?} rejecting", e);
    if let Some(x) = &rec.accept_err {
        viol!("{}: failed with {}", who, x);
    }
    let w = &rec.written;
    let show = || trunc(&String::from_utf8_lossy(w), 1500);
    let h = match hs::parse_head(w) {
        Err(e) => viol!("{}: the response is malformed ({}): {}", who, e, show()),
        Ok(None) => viol!("{}: the response has no end: {}", who, show()),
        Ok(Some(h)) => h,
    };
    ensure!(h.len == w.len(), "{}: {} bytes follow the response: {}", who, w.len() - h.len, show());
    ensure!(h.first.starts_with(&format!("{} 400 ", q.version)), "{}: status line {:?}", who, h.first);
    ensure!(h.all("Sec-WebSocket-Accept").is_empty() && h.all("Upgrade").is_empty() && h.list("Connection").iter().all(|x| !x.eq_ignore_ascii_case("upgrade")), "{}: the upgrade is confirmed: {}", who, show());
    let mut f = preset.clone();
    if with {
        f.extend(custom.clone());
    }
    ensure!(grouped_head(&h, &[]) == grouped(&f), "{}: fields {:?}, application's {:?}", who, grouped_head(&h, &[]), grouped(&f));
    ensure!(rec.stream_back, "{}: the stream was not handed back usable", who);
    if matches!(e, SE::Async | SE::AServer) {
        let j = joined(&rec);
        ensure!(j == t, "{}: bytes after the request: {} handed back or unread, {} sent", who, hex(&j), hex(&t));
    }
    if matches!(e, SE::Sync | SE::SyncTcpLike | SE::Pair) {
        let mut j = rec.ahead.clone().unwrap_or_default();
        j.extend_from_slice(&rec.unread);
        ensure!(j == t, "{}: {} bytes followed the request, {} of them were read ahead before the rejection, and {} are left in the stream: {} / {}", who, t.len(), rec.ahead.as_ref().map(|a| a.len()).unwrap_or(0), rec.unread.len(), hex(&j), hex(&t));
    }
    if let Some(p) = &rec.parsed {
        parsed(&who, q, p)?;
    }
    c.ev("rejections", 1);
    c.ev(&format!("rejections_{:?}", e), 1);
    if with && !custom.is_empty() {
        c.ev("rejections_with_headers", 1);
    }
    c.eval(hash(&bytes) ^ hash(w) ^ e as u64);
    Ok(())
}
/// writing the answer fails: the error is reported and (blocking) the stream comes back
fn write_failures(c: &mut Case) -> Res {
    let q = request(&mut c.rng, 0, false);
    let e = *c.rng.pick(&[SE::Sync, SE::Pair, SE::Async]);
    let k = c.rng.range(0, 24);
    let kind = *c.rng.pick(&[ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::Other]);
    let mut wp = vec![];
    if k > 0 {
        wp.push(W::Accept(k));
    }
    wp.push(W::Err(kind));
    let b = q.bytes();
    let what = if c.rng.chance(1, 2) { What::Accept(AcceptPlan::default()) } else { What::Reject { custom: vec![], with: false, preset: vec![] } };
    let n = b.len();
    let steps = script(c, e, &b, n);
    let rec = serve(e, &q, steps, End::Eof, &what, wp, vec![])?;
    ensure!(rec.accept_err.is_some(), "{:?}: the transport failed with {:?} after {} bytes of the response, yet the operation succeeded: {}", e, kind, k, hex(&rec.written));
    // fewer when the answer is written in pieces
    ensure!(rec.written.len() <= k, "{:?}: kept writing after a failed write: {}", e, hex(&rec.written));
    if e != SE::Async {
        ensure!(rec.stream_back, "{:?}: stream lost after a failed write", e);
    }
    c.ev("failed_answers", 1);
    c.eval(hash(&b) ^ k as u64);
    Ok(())
}
/// a refused request inside a keep-alive HTTP server: the application answers it and the next one is still served
fn validate_leaves_alone(c: &mut Case) -> Res {
    let n = c.rng.range(1, 4);
    let q = request(&mut c.rng, n, false);
    let r = incoming(&q)?;
    let before = fields_of(&r.headers);
    let _ = guard(|| Ok(websocket::server::upgrade::validate(&r.subject.0, r.version, &r.headers)))?;
    ensure!(before == fields_of(&r.headers), "validate changed the request: {:?} / {:?}", before, fields_of(&r.headers));
    c.eval(hash(&q.bytes()));
    Ok(())
}
pub fn run(x: &Ctx) {
    x.scale(2);
    x.rule("a case generates a request that is not acceptable (or an acceptable one that the application rejects), followed by arbitrary bytes, in generated segments, on every server interface; judged: bytes written (none / exactly one 400 head with exactly the application's fields), identity and usability of the stream handed back, the request handed back field by field, and (refused) that bytes handed back plus bytes left in the transport are exactly the bytes that followed; distinct by bytes and interface");
    x.assume("for heads that are not HTTP only the bytes following the head must survive; a blocking rejection returns only the stream, so bytes read ahead are not demanded there");
    x.run("refused", x.q(8_000, 250_000), |c| {
        let mut q = match c.idx % 4 {
            0 => request(&mut c.rng, 0, true),
            1 | 2 => request(&mut c.rng, 1, false),
            _ => {
                let n = c.rng.range(2, 6);
                request(&mut c.rng, n, false)
            }
        };
        announce(c, &mut q);
        c.note(q.show());
        for e in [SE::Sync, SE::SyncTcpLike, SE::Pair, SE::Async] {
            if q.raw.is_none() || e != SE::Pair {
                refused(c, e, &q)?;
            }
        }
        c.sample(|| trunc(&q.show(), 300));
        Ok(())
    });
    x.run("refused_sockets", x.q(1_600, 20_000), |c| {
        let q = if c.idx % 4 == 0 { request(&mut c.rng, 0, true) } else { request(&mut c.rng, 1, false) };
        c.note(q.show());
        for e in [SE::Server, SE::AServer, SE::Hyper] {
            if q.raw.is_none() || e != SE::Hyper {
                refused(c, e, &q)?;
            }
        }
        Ok(())
    });
    x.run("rejected", x.q(8_000, 250_000), |c| {
        let mut q = request(&mut c.rng, 0, false);
        announce(c, &mut q);
        c.note(q.show());
        for e in [SE::Sync, SE::SyncTcpLike, SE::Pair, SE::Async] {
            reject(c, e, &q)?;
        }
        Ok(())
    });
    x.run("rejected_sockets", x.q(1_200, 20_000), |c| {
        let q = request(&mut c.rng, 0, false);
        c.note(q.show());
        for e in [SE::Server, SE::AServer, SE::Hyper] {
            reject(c, e, &q)?;
        }
        Ok(())
    });
    x.run("write_failures", x.q(1_500, 30_000), write_failures);
    x.run("validate", x.q(500, 5_000), validate_leaves_alone);
    x.need("refusals", 5000);
    x.need("refusals_with_read_ahead", 500);
    x.need("rejections", 5000);
    x.need("rejections_with_headers", 1000);
    x.need("failed_answers", 500);
    x.need("announcing_bodies", 1000);
    for e in [SE::Sync, SE::SyncTcpLike, SE::Pair, SE::Async, SE::Server, SE::AServer, SE::Hyper] {
        x.need(&format!("refusals_{:?}", e), 200);
        x.need(&format!("rejections_{:?}", e), 200);
    }
}
