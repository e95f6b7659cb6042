//! C28: failures are reported as what they were, by the operation that met them.
use crate::c05;
use crate::core::*;
use crate::exec::{drive, D};
use crate::gen;
use crate::heads;
use crate::hs;
use crate::net;
use crate::recv::{self, errclass, Ev, Opts, RK};
use crate::send::{self, FORMS, SK};
use crate::srv;
use crate::stream::*;
use crate::wire::*;
use std::error::Error;
use std::io::{self, ErrorKind};
use websocket::codec::http::HttpCodecError;
use websocket::result::WebSocketOtherError;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::{ClientBuilder, WebSocketError};

/// kinds that are neither a wait nor an end
const KINDS: [ErrorKind; 12] = [
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::ConnectionRefused,
    ErrorKind::Other,
];
type Io = (ErrorKind, String);
fn io(e: &io::Error) -> Io {
    (e.kind(), e.to_string())
}
fn of_http(e: &hyper::Error) -> Option<Io> {
    match e {
        hyper::Error::Io(e) => Some(io(e)),
        _ => None,
    }
}
/// the transport error inside an error, however it is wrapped
fn cause(e: &(dyn Error + 'static)) -> Option<Io> {
    let mut e = e;
    for _ in 0..10 {
        if let Some(x) = e.downcast_ref::<io::Error>() {
            return Some(io(x));
        }
        if let Some(x) = e.downcast_ref::<hyper::Error>() {
            return of_http(x);
        }
        if let Some(WebSocketError::Other(b)) = e.downcast_ref::<WebSocketError>() {
            e = &**b;
            continue;
        }
        match e.source() {
            Some(s) => e = s,
            None => return None,
        }
    }
    None
}
/// looking at an error does not fail and shows something
fn look(what: &str, e: &(dyn Error + 'static)) -> Res {
    let mut e = Some(e);
    let mut n = 0;
    while let Some(x) = e {
        ensure!(!x.to_string().is_empty() && !format!("{:?}", x).is_empty(), "{}: an error without any text", what);
        e = x.source();
        n += 1;
        ensure!(n < 20, "{}: the chain of causes does not end", what);
    }
    Ok(())
}
fn same(what: &str, e: &(dyn Error + 'static), want: &Io) -> Res {
    look(what, e)?;
    let got = cause(e);
    ensure!(got.as_ref() == Some(want), "{}: the transport failed with {:?}, reported is {:?} ({}) with the cause {:?}", what, want, e, e, got);
    Ok(())
}
fn count(c: &mut Case, what: &str, k: ErrorKind) {
    c.ev(what, 1);
    c.seen("kinds", hash_s(&format!("{:?}", k)));
    c.seen("operation_and_kind", hash_s(&format!("{} {:?}", what, k)));
}

// ------------------------------------------------------------------ receiving and sending
fn receiving(c: &mut Case) -> Res {
    style(c);
    let rk = recv::ALL[c.idx as usize % recv::ALL.len()];
    if rk == RK::Codec {
        // has no transport of its own
        return Ok(());
    }
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let masked = role.recv_masked();
    let ms = gen::msgs(&mut c.rng, 5, false);
    let (fs, _) = gen::fragmented(&mut c.rng, &ms, masked, 3, 2);
    let data = encode_all(&fs);
    let bounds = gen::bounds_of(&fs);
    let cut = if c.rng.chance(1, 3) { data.len() } else { c.rng.below(data.len() + 1) };
    let kind = KINDS[c.rng.below(KINDS.len())];
    let want: Vec<M> = ref_decode(&data[..cut], masked).msgs.into_iter().map(|m| m.0).collect();
    let (mut steps, _) = gen::segment(&mut c.rng, &data[..cut], &bounds);
    if c.rng.chance(1, 3) {
        steps = gen::with_waits(&mut c.rng, steps, &[ErrorKind::WouldBlock], 1, 3);
    }
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    c.note(format!("{:?}/{:?} variant {}: {:?} after {} of {} bytes", rk, role, o.variant, kind, cut, data.len()));
    let got = recv::receive(rk, &o, steps, End::Err(kind))?;
    let what = format!("{:?}/{:?}: {:?} after {} of {} bytes", rk, role, kind, cut, data.len());
    let expect = format!("Io({:?}:{})", kind, fault_text(got.stream.id(), kind));
    let ms: Vec<M> = got.msgs();
    let bad: Vec<&Ev> = got.evs.iter().filter(|e| !matches!(e, Ev::Msg(_) | Ev::Wait(_))).collect();
    ensure!(bad.len() == 1 && *bad[0] == Ev::Err(expect.clone()), "{}: reported as {:?} instead of {}", what, bad, expect);
    ensure!(ms == want, "{}: delivered before it {} instead of {}", what, shorts(&ms), shorts(&want));
    count(c, &format!("receive_{:?}", rk), kind);
    c.ev("reads_failed", 1);
    c.eval(hash(&data[..cut]) ^ hash_s(&what));
    c.sample(|| format!("{} -> {}", what, expect));
    Ok(())
}
/// how failures look: with a text of their own, kind only, or as the operating system reports them
fn style(c: &mut Case) {
    let s = c.rng.below(3);
    FAULT_STYLE.with(|f| f.set(s as u64));
    c.ev(["faults_with_text", "faults_kind_only", "faults_of_the_system"][s], 1);
}
fn sending(c: &mut Case) -> Res {
    style(c);
    let sk = send::ALL[c.idx as usize % send::ALL.len()];
    if matches!(sk, SK::Codec | SK::CodecMsg | SK::CodecDf) {
        return Ok(());
    }
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let form = *c.rng.pick(&FORMS);
    let ms = gen::msgs(&mut c.rng, 5, false);
    let kind = KINDS[c.rng.below(KINDS.len())];
    let (mut wp, fp) = gen::wplan(&mut c.rng, sk.is_async_io());
    let sizes: Vec<usize> = ms
        .iter()
        .map(|m| {
            let n = m.payload().len();
            n + 2 + if n > 65535 { 8 } else if n > 125 { 2 } else { 0 } + if role.send_masked() { 4 } else { 0 }
        })
        .collect();
    let total: usize = sizes.iter().sum();
    if total == 0 {
        return Ok(());
    }
    let at = c.rng.below(total);
    wp.push(W::FailAt(at, Some(kind)));
    let variant = c.rng.below(24);
    let what = format!("{:?}/{:?}/{:?} variant {}: {:?} after {} of {} bytes", sk, form, role, variant, kind, at, total);
    c.note(what.clone());
    let sent = send::send(sk, form, role, &ms, wp, fp, variant)?;
    let expect = format!("Io({:?}:{})", kind, fault_text(sent.stream.id(), kind));
    let mut sum = 0;
    let mut seen = 0;
    for (i, r) in sent.results.iter().enumerate() {
        sum += sizes[i];
        if !sk.is_async_io() {
            // the operation that met it, and none before
            ensure!(r.0.is_ok() == (sum <= at), "{}: message {} gave {:?}", what, i, r.0);
        }
        if let Err(e) = &r.0 {
            ensure!(*e == expect, "{}: message {}: reported as {} instead of {}", what, i, e, expect);
            seen += 1;
        }
    }
    let fe = sent.stream.l().flush_error.clone();
    if let Some(e) = &fe {
        ensure!(*e == expect, "{}: reported by the flush as {} instead of {}", what, e, expect);
        seen += 1;
    }
    ensure!(seen > 0, "{}: never reported: {:?}", what, sent.results.iter().map(|r| &r.0).collect::<Vec<_>>());
    count(c, &format!("send_{:?}", sk), kind);
    c.ev("writes_failed", 1);
    c.eval(hash_s(&what) ^ gen::fp(&ms));
    Ok(())
}
/// malformed frames and text are the peer's fault, not the transport's
fn offences(c: &mut Case) -> Res {
    let rk = recv::ALL[c.idx as usize % recv::ALL.len()];
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let masked = role.recv_masked();
    let ms = gen::msgs(&mut c.rng, 3, false);
    let mut fs: Vec<F> = ms.iter().map(|m| gen::frame_of(&mut c.rng, m, masked)).collect();
    let open = c.rng.chance(1, 3);
    if open {
        let k = gen::mask_for(&mut c.rng, masked);
        fs.push(F::new(false, 2, b"part".to_vec()).masked(k));
    }
    let which = c.rng.below(c05::KINDS.len() + 3);
    let k = gen::mask_for(&mut c.rng, masked);
    let (why, f) = if which < c05::KINDS.len() {
        let mut t = 0;
        let f = loop {
            if let Some(f) = c05::offender(&mut c.rng, which, open, masked) {
                break f;
            }
            t += 1;
            if t > 20 {
                return Ok(());
            }
        };
        (c05::KINDS[which], f)
    } else {
        match which - c05::KINDS.len() {
            0 if !open => ("invalid text", F::new(true, 1, vec![b'a', 0xff, b'b']).masked(k)),
            1 => ("close of one byte", F::new(true, 8, vec![3]).masked(k)),
            _ => ("close with invalid text", F::new(true, 8, vec![3, 232, 0xc0, 0x80]).masked(k)),
        }
    };
    fs.push(f);
    // some offences are reported when the message they are part of is complete
    let k = gen::mask_for(&mut c.rng, masked);
    fs.push(F::new(true, 0, b"rest".to_vec()).masked(k));
    let data = encode_all(&fs);
    let bounds = gen::bounds_of(&fs);
    let (mut steps, _) = gen::segment(&mut c.rng, &data, &bounds);
    if c.rng.chance(1, 3) {
        steps = gen::with_waits(&mut c.rng, steps, &[ErrorKind::WouldBlock], 1, 3);
    }
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    let what = format!("{:?}/{:?}: {} after {} messages, open {}", rk, role, why, ms.len(), open);
    c.note(what.clone());
    // the transport is well and goes on
    let got = recv::receive(rk, &o, steps, End::Block)?;
    let e = got.evs.iter().find(|e| !matches!(e, Ev::Msg(_) | Ev::Wait(_)));
    ensure!(
        matches!(e, Some(Ev::Err(s)) if s.starts_with("Protocol(") || s.starts_with("DataFrame(") || s == "Utf8"),
        "{}: reported as {:?}",
        what,
        e
    );
    c.ev("offences", 1);
    c.seen("offence_kinds", hash_s(why));
    c.eval(hash(&data) ^ rk as u64);
    Ok(())
}

// ------------------------------------------------------------------ handshakes
fn client_handshake(c: &mut Case) -> Res {
    style(c);
    let asy = c.idx % 2 == 1;
    let kind = KINDS[c.rng.below(KINDS.len())];
    let full = hs::response();
    let write = c.rng.chance(1, 2);
    let s = if write {
        let at = c.rng.below(150);
        c.note(format!("async {}: writing the request fails with {:?} after {} bytes", asy, kind, at));
        let (mut wp, fp) = gen::wplan(&mut c.rng, asy);
        wp.push(W::FailAt(at, Some(kind)));
        Scripted::new(vec![Step::Data(full)], End::Eof).wplan(wp, fp)
    } else {
        let at = c.rng.below(full.len());
        c.note(format!("async {}: reading the response fails with {:?} after {} of {} bytes", asy, kind, at, full.len()));
        let (mut steps, _) = if at > 0 { gen::segment(&mut c.rng, &full[..at], &[]) } else { (vec![], gen::Seg::Whole) };
        if asy && c.rng.chance(1, 2) {
            steps = gen::with_waits(&mut c.rng, steps, &[ErrorKind::WouldBlock], 1, 3);
        }
        Scripted::new(steps, End::Err(kind))
    };
    let want = (kind, fault_text(s.id(), kind));
    let what = c.trace[0].clone();
    guard(|| {
        let mut b = ClientBuilder::new("ws://server.example.com/a/rather/long/resource/so/that/the/request/is/not/short?with=query").map_err(|e| Fail::H(e.to_string()))?.key(hs::KEY);
        if asy {
            let s = s.clone().asy();
            match drive(b.async_connect_on(s.clone()), &[s])? {
                D::Done(_) => viol!("{}: a client was made", what),
                D::Err(e) => same(&what, &e, &want),
                D::Idle => viol!("{}: still waiting", what),
            }
        } else {
            match b.connect_on(s.clone()) {
                Ok(_) => viol!("{}: a client was made", what),
                Err(e) => same(&what, &e, &want),
            }
        }
    })?;
    count(c, if write { "request_failed" } else { "response_failed" }, kind);
    c.eval(hash_s(&what));
    Ok(())
}
fn server_handshake(c: &mut Case) -> Res {
    style(c);
    let asy = c.idx % 2 == 1;
    let kind = KINDS[c.rng.below(KINDS.len())];
    let q = srv::request(&mut c.rng, 0, false);
    let full = q.bytes();
    let at = c.rng.below(full.len());
    let what = format!("async {}: reading the request fails with {:?} after {} of {} bytes", asy, kind, at, full.len());
    c.note(what.clone());
    let (mut steps, _) = if at > 0 { gen::segment(&mut c.rng, &full[..at], &[]) } else { (vec![], gen::Seg::Whole) };
    if asy && c.rng.chance(1, 2) {
        steps = gen::with_waits(&mut c.rng, steps, &[ErrorKind::WouldBlock], 1, 3);
    }
    let s = Scripted::new(steps, End::Err(kind));
    let want = (kind, fault_text(s.id(), kind));
    guard(|| {
        if asy {
            use websocket::server::upgrade::r#async::IntoWs;
            let s = s.clone().asy();
            match drive(IntoWs::into_ws(s.clone()), &[s])? {
                D::Done(_) => viol!("{}: an upgrade was made", what),
                D::Err(e) => same(&what, &e.3, &want),
                D::Idle => viol!("{}: still waiting", what),
            }
        } else {
            use websocket::server::upgrade::sync::IntoWs;
            match IntoWs::into_ws(s.clone()) {
                Ok(_) => viol!("{}: an upgrade was made", what),
                Err(e) => same(&what, &e.3, &want),
            }
        }
    })?;
    count(c, if asy { "request_reading_failed_async" } else { "request_reading_failed" }, kind);
    c.eval(hash_s(&what) ^ hash(&full));
    Ok(())
}
fn answering(c: &mut Case) -> Res {
    style(c);
    let asy = c.idx % 2 == 1;
    let accept = c.rng.chance(1, 2);
    let with = c.rng.chance(1, 2);
    let kind = KINDS[c.rng.below(KINDS.len())];
    let q = srv::request(&mut c.rng, 0, false);
    // the shortest refusal has 28 bytes
    let at = c.rng.below(if accept { 100 } else { 28 });
    let custom: Vec<(String, Vec<u8>)> = (0..c.rng.below(3)).map(|i| (format!("X-{}", i), heads::alnum(&mut c.rng, 9).into_bytes())).collect();
    let what = format!("async {}: writing the {} (own headers {}) fails with {:?} after {} bytes", asy, if accept { "acceptance" } else { "refusal" }, with, kind, at);
    c.note(what.clone());
    let (mut wp, fp) = gen::wplan(&mut c.rng, asy);
    wp.push(W::FailAt(at, Some(kind)));
    let s = Scripted::new(vec![Step::Data(q.bytes())], End::Block).wplan(wp, fp);
    let want = (kind, fault_text(s.id(), kind));
    let h = srv::headers_of(&custom);
    guard(|| {
        if asy {
            use websocket::server::upgrade::r#async::IntoWs;
            let s = s.clone().asy();
            let u = match drive(IntoWs::into_ws(s.clone()), &[s.clone()])? {
                D::Done(u) => u,
                D::Err(e) => viol!("{}: the request was refused: {}", what, e.3),
                D::Idle => viol!("{}: waiting for the request", what),
            };
            if accept {
                match drive(if with { u.accept_with(&h) } else { u.accept() }, &[s])? {
                    D::Done(_) => viol!("{}: reported as done", what),
                    D::Err(e) => same(&what, &e, &want),
                    D::Idle => viol!("{}: still waiting", what),
                }
            } else {
                match drive(if with { u.reject_with(&h) } else { u.reject() }, &[s])? {
                    D::Done(_) => viol!("{}: reported as done", what),
                    D::Err(e) => same(&what, &e, &want),
                    D::Idle => viol!("{}: still waiting", what),
                }
            }
        } else {
            use websocket::server::upgrade::sync::IntoWs;
            let u = match IntoWs::into_ws(s.clone()) {
                Ok(u) => u,
                Err(e) => viol!("{}: the request was refused: {}", what, e.3),
            };
            let r = if accept {
                if with { u.accept_with(&h).map(|_| ()) } else { u.accept().map(|_| ()) }
            } else if with {
                u.reject_with(&h).map(|_| ())
            } else {
                u.reject().map(|_| ())
            };
            match r {
                Ok(()) => viol!("{}: reported as done", what),
                Err((_, e)) => same(&what, &e, &want),
            }
        }
    })?;
    count(c, if accept { "acceptance_failed" } else { "refusal_failed" }, kind);
    c.eval(hash_s(&what));
    Ok(())
}
/// nobody listens there
fn refused(c: &mut Case) -> Res {
    use std::os::unix::io::{FromRawFd, RawFd};
    // bound, so that nobody else gets the port, but not listening
    let ip = match net::any_ip() {
        std::net::IpAddr::V4(i) => i,
        _ => hfail!("address"),
    };
    let (_hold, port) = unsafe {
        let fd: RawFd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            hfail!("socket");
        }
        let hold = std::net::TcpListener::from_raw_fd(fd);
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16;
        a.sin_addr.s_addr = u32::from(ip).to_be();
        if libc::bind(fd, &a as *const _ as *const libc::sockaddr, std::mem::size_of_val(&a) as u32) != 0 {
            hfail!("bind: {}", io::Error::last_os_error());
        }
        let p = match hold.local_addr() {
            Ok(a) => a.port(),
            Err(e) => hfail!("{}", e),
        };
        (hold, p)
    };
    let way = c.idx as usize % 6;
    let tls = matches!(way, 2 | 5) || (matches!(way, 0 | 3) && c.rng.chance(1, 2));
    let what = format!("{} tls {}", ["connect", "connect_insecure", "connect_secure", "async_connect", "async_connect_insecure", "async_connect_secure"][way], tls);
    c.note(what.clone());
    let mut b = ClientBuilder::new(&format!("{}://{}:{}/", if tls { "wss" } else { "ws" }, ip, port)).map_err(|e| Fail::H(e.to_string()))?;
    let e = guard(|| {
        let e = match way {
            0 => b.connect(None).err(),
            1 => b.connect_insecure().err(),
            2 => b.connect_secure(None).err(),
            3 => net::block(b.async_connect(None))?.err(),
            4 => net::block(b.async_connect_insecure())?.err(),
            _ => net::block(b.async_connect_secure(None))?.err(),
        };
        Ok(e)
    })?;
    let e = match e {
        None => viol!("{}: connected where nobody listens", what),
        Some(e) => e,
    };
    look(&what, &e)?;
    ensure!(matches!(cause(&e), Some((ErrorKind::ConnectionRefused, _))), "{}: nobody listens there, reported is {}", what, errclass(&e));
    c.ev("connections_refused", 1);
    c.eval(hash_s(&what));
    Ok(())
}

// ------------------------------------------------------------------ errors as values
fn values(c: &mut Case) -> Res {
    let kind = KINDS[c.rng.below(KINDS.len())];
    let text = heads::alnum(&mut c.rng, 12);
    let mk = || io::Error::new(kind, text.clone());
    let want = (kind, text.clone());
    let utf = std::str::from_utf8(&[b'a', 0xff]).unwrap_err();
    guard(|| {
        same("WebSocketError::from(io)", &WebSocketError::from(mk()), &want)?;
        ensure!(matches!(WebSocketError::from(mk()), WebSocketError::IoError(_)), "WebSocketError::from(io) is no IoError");
        ensure!(matches!(WebSocketError::from(io::Error::new(ErrorKind::UnexpectedEof, "x")), WebSocketError::NoDataAvailable), "an end of stream is not NoDataAvailable");
        for k in [ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Interrupted] {
            ensure!(matches!(WebSocketError::from(io::Error::new(k, "x")), WebSocketError::IoError(ref e) if e.kind() == k), "{:?} is not an IoError of its kind", k);
        }
        ensure!(matches!(WebSocketError::from(utf), WebSocketError::Utf8Error(u) if u == utf), "WebSocketError::from(Utf8Error)");
        same("HttpCodecError::from(io)", &HttpCodecError::from(mk()), &want)?;
        same("HttpCodecError::from(http)", &HttpCodecError::from(hyper::Error::Io(mk())), &want)?;
        same("HyperIntoWsError::from(io)", &HyperIntoWsError::from(mk()), &want)?;
        same("HyperIntoWsError::from(http)", &HyperIntoWsError::from(hyper::Error::Io(mk())), &want)?;
        same("HyperIntoWsError::from(codec io)", &HyperIntoWsError::from(HttpCodecError::Io(mk())), &want)?;
        same("HyperIntoWsError::from(codec http)", &HyperIntoWsError::from(HttpCodecError::Http(hyper::Error::Io(mk()))), &want)?;
        same("WebSocketOtherError::from(http)", &WebSocketOtherError::from(hyper::Error::Io(mk())), &want)?;
        same("WebSocketOtherError::from(codec io)", &WebSocketOtherError::from(HttpCodecError::Io(mk())), &want)?;
        same("WebSocketOtherError::from(codec http)", &WebSocketOtherError::from(HttpCodecError::Http(hyper::Error::Io(mk()))), &want)?;
        same("WebSocketOtherError::from(refusal io)", &WebSocketOtherError::from(HyperIntoWsError::Io(mk())), &want)?;
        same("WebSocketOtherError::from(refusal http)", &WebSocketOtherError::from(HyperIntoWsError::Parsing(hyper::Error::Io(mk()))), &want)?;
        let wrapped = WebSocketError::from(WebSocketOtherError::IoError(mk()));
        same("WebSocketError::from(other)", &wrapped, &want)?;
        ensure!(wrapped.to_string().contains(&text), "the text {:?} of the cause is lost in {:?}", text, wrapped.to_string());
        // refusals stay tellable apart, also once converted
        use HyperIntoWsError::*;
        let all: [fn() -> HyperIntoWsError; 8] =
            [|| MethodNotGet, || UnsupportedHttpVersion, || UnsupportedWebsocketVersion, || NoSecWsKeyHeader, || NoWsUpgradeHeader, || NoUpgradeHeader, || NoWsConnectionHeader, || NoConnectionHeader];
        let mut texts = std::collections::HashSet::new();
        let mut conv = std::collections::HashSet::new();
        for f in all.iter() {
            let e = f();
            look("refusal", &e)?;
            ensure!(e.source().is_none(), "{:?} claims a cause", e);
            ensure!(texts.insert(e.to_string()), "two refusals read {:?}", e.to_string());
            let o = WebSocketOtherError::from(f());
            look("converted refusal", &o)?;
            ensure!(matches!(o, WebSocketOtherError::ProtocolError(_)), "{:?} converted to {:?}", e, o);
            ensure!(conv.insert(o.to_string()), "two converted refusals read {:?}", o.to_string());
        }
        let st = hyper::status::StatusCode::from_u16(300 + (hash_s(&text) % 100) as u16);
        for o in [
            WebSocketOtherError::RequestError("a"),
            WebSocketOtherError::ResponseError("b"),
            WebSocketOtherError::ProtocolError("c"),
            WebSocketOtherError::StatusCodeError(st),
            WebSocketOtherError::RedirectError(st, text.clone()),
            WebSocketOtherError::HttpError(hyper::Error::TooLarge),
            WebSocketOtherError::UrlError(url::ParseError::EmptyHost),
            WebSocketOtherError::TlsHandshakeFailure,
            WebSocketOtherError::TlsHandshakeInterruption,
            WebSocketOtherError::from(websocket::result::WSUrlErrorKind::InvalidScheme),
            WebSocketOtherError::from(websocket::result::WSUrlErrorKind::NoHostName),
            WebSocketOtherError::from(websocket::result::WSUrlErrorKind::CannotSetFragment),
        ] {
            let d = format!("{:?}", o);
            look("error", &o)?;
            let t = o.to_string();
            ensure!(cause(&o).is_none(), "{} claims a transport error", d);
            let w = WebSocketError::from(o);
            look("error", &w)?;
            ensure!(w.to_string().contains(&t), "{} reads {:?} once wrapped", d, w.to_string());
            match w {
                WebSocketError::Other(b) => ensure!(b.downcast_ref::<WebSocketOtherError>().map(|x| format!("{:?}", x)) == Some(d.clone()), "{} cannot be got back", d),
                x => viol!("{} wrapped is {:?}", d, x),
            }
        }
        for w in [WebSocketError::ProtocolError("p"), WebSocketError::DataFrameError("d"), WebSocketError::NoDataAvailable] {
            look("error", &w)?;
            ensure!(w.source().is_none(), "{:?} claims a cause", w);
        }
        Ok(())
    })?;
    c.ev("error_values", 1);
    c.eval(hash_s(&text));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("a case lets the transport fail - with one of twelve error kinds and a text that names the stream - at a generated byte of a receive, send, request, response, acceptance or refusal, blocking or asynchronous, and takes the reported error apart: the very same error must be found in it, reported by the operation that met it, after everything complete before it was delivered; conversely offences of the peer over a sound transport must be reported as protocol, frame or UTF-8 errors; error values are built, converted, formatted and followed to their causes; distinct by operation, place and kind");
    x.assume("an end of stream (UnexpectedEof) and waits (WouldBlock, TimedOut, Interrupted) have their own rules (C07, C10) and are not injected here");
    x.run("receiving", x.q(48_000, 1_000_000), receiving);
    x.run("sending", x.q(42_000, 1_000_000), sending);
    x.run("client_handshake", x.q(20_000, 400_000), client_handshake);
    x.run("server_handshake", x.q(20_000, 400_000), server_handshake);
    x.run("answering", x.q(20_000, 400_000), answering);
    x.run("refused", x.q(600, 6_000), refused);
    x.run("values", x.q(2_000, 20_000), values);
    x.run("offences", x.q(32_000, 600_000), offences);
    for k in RK_NAMES.iter() {
        for s in ["faults_with_text", "faults_kind_only", "faults_of_the_system"] {
        x.need(s, 1000);
    }
    x.need(k, 1);
    }
    for n in ["reads_failed", "writes_failed", "offences", "request_failed", "response_failed", "request_reading_failed", "request_reading_failed_async", "acceptance_failed", "refusal_failed", "connections_refused", "error_values"] {
        x.need(n, 100);
    }
}
const RK_NAMES: [&str; 3] = ["receive_Receiver", "receive_AsyncClient", "send_AsyncClient"];
