//! C13: a server admits exactly the valid upgrade requests.
use crate::core::*;
use crate::gen;
use crate::srv::*;
use crate::stream::*;
use hyper::header::Headers;
use hyper::method::Method;
use hyper::version::HttpVersion;
use std::io::ErrorKind;

pub fn verdict(e: SE, q: &Req, r: &Rec) -> Res {
    let show = || trunc(&q.show(), 1200);
    if q.bad.is_empty() {
        if let Some((n, t)) = &r.err {
            viol!("{:?}: a valid request was refused with {} ({}): {}", e, n, t, show());
        }
        ensure!(r.accepted, "{:?}: a valid request was neither admitted nor refused: {}", e, show());
        return Ok(());
    }
    ensure!(!r.accepted, "{:?}: a request violating {:?} was admitted: {}", e, q.bad, show());
    match &r.err {
        None => viol!("{:?}: no error for a request violating {:?}: {}", e, q.bad, show()),
        Some((n, t)) => ensure!(
            q.bad.iter().any(|b| names(*b).contains(n)),
            "{:?}: error {} ({}) for a request violating only {:?}: {}",
            e,
            n,
            t,
            q.bad,
            show()
        ),
    }
    Ok(())
}
pub fn script(c: &mut Case, e: SE, bytes: &[u8], head: usize) -> Vec<Step> {
    if on_socket(e) {
        let k = c.rng.below(3);
        let mut cuts: Vec<usize> = (0..k).map(|_| c.rng.range(0, bytes.len())).collect();
        cuts.sort();
        cuts.dedup();
        return gen::at_cuts(bytes, &cuts);
    }
    let (steps, _) = gen::segment(&mut c.rng, bytes, &[head]);
    if e == SE::Async && c.rng.chance(1, 2) {
        return gen::with_waits(&mut c.rng, steps, &[ErrorKind::WouldBlock], 1, 3);
    }
    steps
}
fn one(c: &mut Case, e: SE, q: &Req) -> Res {
    let mut bytes = vec![];
    // empty lines before the request line
    if q.raw.is_none() && c.rng.chance(1, 10) {
        let k = if c.rng.chance(1, 8) { c.rng.range(4, 300) } else { c.rng.range(1, 3) };
        for _ in 0..k {
            bytes.extend_from_slice(if c.rng.chance(4, 5) { b"\r\n" } else { b"\n" });
        }
        c.ev("after_empty_lines", 1);
    }
    bytes.extend(q.bytes());
    let head = bytes.len();
    if c.rng.chance(1, 3) && e != SE::Hyper {
        let n = c.rng.range(1, 60);
        bytes.extend(c.rng.bytes(n));
    }
    let steps = script(c, e, &bytes, head);
    let r = serve(e, q, steps, End::Eof, &What::Look, vec![], vec![])?;
    verdict(e, q, &r)?;
    c.ev(if q.bad.is_empty() { "admitted" } else { "refused" }, 1);
    for b in &q.bad {
        c.ev(&format!("violating {:?}", b), 1);
    }
    if let Some((n, _)) = &r.err {
        c.seen("error_named", hash_s(n));
    }
    c.eval(hash(&q.bytes()) ^ e as u64);
    Ok(())
}
fn usable(e: SE, q: &Req) -> bool {
    // requests that never become a parsed request have no pre-parsed form
    !(q.raw.is_some() && matches!(e, SE::Pair | SE::Validate))
}
pub fn run(x: &Ctx) {
    x.rule("a case generates an upgrade request with known verdict (valid with many harmless variations, or violating a known set of requirements, or not HTTP), offers the same bytes in generated segments to every server interface (blocking and asynchronous stream, pre-parsed request, listening server, hyper handler, validate), and compares admission and the error named with the verdict; distinct by request bytes and interface");
    x.assume("requests have fewer than 100 fields, CRLF line ends and no tab after a value: what the HTTP library makes of others is not this crate's decision");
    let gen_req = |c: &mut Case, i: u64| -> Req {
        match i % 8 {
            0..=2 => request(&mut c.rng, 0, false),
            3 | 4 | 5 => request(&mut c.rng, 1, false),
            6 => {
                let n = c.rng.range(2, 6);
                request(&mut c.rng, n, false)
            }
            _ => request(&mut c.rng, 0, true),
        }
    };
    x.run("memory", x.q(24_000, 800_000), |c| {
        let i = c.idx;
        let mut q = gen_req(c, i);
        announce(c, &mut q);
        c.note(q.show());
        for e in [SE::Sync, SE::SyncTcpLike, SE::Pair, SE::Async, SE::Validate] {
            if usable(e, &q) {
                one(c, e, &q)?;
            }
        }
        c.sample(|| format!("{:?}: {}", q.bad, q.show()));
        Ok(())
    });
    x.run("sockets", x.q(2_400, 40_000), |c| {
        let i = c.idx;
        let q = gen_req(c, i);
        c.note(q.show());
        for e in [SE::Server, SE::AServer, SE::Hyper] {
            if usable(e, &q) {
                one(c, e, &q)?;
            }
        }
        c.ev("socket_requests", 1);
        Ok(())
    });
    // an incomplete head is never admitted
    x.run("incomplete", x.q(300, 5_000), |c| {
        let q = request(&mut c.rng, 0, false);
        let b = q.bytes();
        let cuts: Vec<usize> = if b.len() < 700 { (0..b.len()).collect() } else { (0..300).map(|_| c.rng.below(b.len())).chain(b.len() - 300..b.len()).collect() };
        for k in cuts {
            let e = if k % 2 == 0 { SE::Sync } else { SE::Async };
            let steps = if k == 0 { vec![] } else { script(c, e, &b[..k], k / 2) };
            let r = serve(e, &q, steps, End::Eof, &What::Look, vec![], vec![])?;
            ensure!(!r.accepted && r.err.is_some(), "{:?}: admitted a request cut after {} of {} bytes: {}", e, k, b.len(), trunc(&q.show(), 800));
            ensure!(r.written.is_empty(), "{:?}: wrote {} for an incomplete request", e, hex(&r.written));
            c.ev("cut_requests_refused", 1);
        }
        c.eval(hash(&b));
        Ok(())
    });
    // versions and methods as values
    x.run("validate_values", 1, |c| {
        for (v, ok) in [(HttpVersion::Http09, false), (HttpVersion::Http10, false), (HttpVersion::Http11, true), (HttpVersion::Http20, true)] {
            let q = request(&mut Rng::new(5), 0, false);
            let mut h = Headers::new();
            for (n, val) in &q.head.fields {
                h.append_raw(n.clone(), val.clone());
            }
            let r = guard(|| Ok(websocket::server::upgrade::validate(&Method::Get, v, &h)))?;
            ensure!(r.is_ok() == ok, "validate with version {}: {:?}", v, r);
            for m in [Method::Post, Method::Head, Method::Options, Method::Connect, Method::Trace, Method::Patch, Method::Put, Method::Delete, Method::Extension("get".into())] {
                let r = guard(|| Ok(websocket::server::upgrade::validate(&m, v, &h)))?;
                ensure!(r.is_err(), "validate admits method {}", m);
            }
            c.eval(hash_s(&v.to_string()));
        }
        Ok(())
    });
    x.need("admitted", 5000);
    x.need("refused", 5000);
    x.need("socket_requests", 300);
    x.need("cut_requests_refused", 5000);
}
