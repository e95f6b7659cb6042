//! C09: hostile bytes cause errors, never panics, hangs or blow-ups.
use crate::alloc;
use crate::core::*;
use crate::crypto::b64;
use crate::exec::{drive, D};
use crate::gen;
use crate::heads;
use crate::hs;
use crate::recv::{self, Ev, Opts};
use crate::stream::*;
use crate::wire::*;
use bytes::BytesMut;
use hyper::header::Header;
use std::io::{Cursor, ErrorKind};
use std::str::FromStr;
use tokio_codec::Decoder;
use websocket::dataframe::DataFrame;
use websocket::header::extensions::Extension;
use websocket::header::{Origin, WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};
use websocket::codec::ws::DataFrameCodec;
use websocket::r#async::{HttpClientCodec, HttpServerCodec};
use websocket::receiver::Receiver;
use websocket::ws::Receiver as _;
use websocket::ClientBuilder;

/// allowance per byte received and fixed allowance; configured limits come on top
const PER: usize = 400;
const FIXED: usize = 1 << 20;
/// allowance per byte of big frames
const PROP: usize = 10;
fn budget(len: usize, limits: usize) -> usize {
    FIXED + PER * len + 4 * limits
}

/// A frame stream no honest peer would send.
fn hostile_frames(r: &mut Rng, masked: bool) -> Vec<u8> {
    match r.below(8) {
        0 => {
            let n = r.below(200);
            return r.bytes(n);
        }
        1 => {
            // only headers with extreme lengths
            let mut v = vec![];
            for _ in 0..r.range(1, 3) {
                let op = *r.pick(&[0u8, 1, 2, 2, 1, 8, 9, 3, 15]);
                let dir = masked != r.chance(1, 10);
                let mut f = F::new(r.chance(1, 2), op, vec![]).masked(gen::mask_for(r, dir));
                f.len = LenForm::L64;
                f.rsv = if r.chance(1, 5) { r.below(8) as u8 } else { 0 };
                let l = *r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 13, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 48, 1 << 40, 1 << 32, (1 << 32) - 1, 1 << 31, 1 << 30, 70_000, 65_536]);
                v.extend(f.header(l));
                let n = r.below(30);
                v.extend(r.bytes(n));
            }
            return v;
        }
        2 => {
            // floods of tiny frames
            let n = r.range(1, 3000);
            let op = *r.pick(&[0u8, 1, 2, 9, 10]);
            let mut v = vec![];
            let k = gen::mask_for(r, masked);
            for i in 0..n {
                let p = vec![b'x'; r.below(2)];
                let fin = op >= 8;
                v.extend(F::new(fin, if op < 8 && i > 0 { 0 } else { op.max(1) }, p).masked(k).encode());
            }
            return v;
        }
        _ => {}
    }
    let mut fs = vec![];
    let mut out = vec![];
    for _ in 0..r.range(1, 8) {
        let op = if r.chance(1, 6) { r.below(16) as u8 } else { *r.pick(&[0u8, 0, 1, 1, 2, 8, 9, 10]) };
        let n = gen::size(r, false);
        let n = if op >= 8 && r.chance(9, 10) { n.min(125) } else { n };
        let p = if r.chance(1, 2) { gen::utf8(r, n).into_bytes() } else { gen::payload(r, n) };
        let dir = masked != r.chance(1, 30);
        let mut f = F::new(r.chance(2, 3), op, p).masked(gen::mask_for(r, dir));
        if r.chance(1, 15) {
            f.rsv = r.below(8) as u8;
        }
        if r.chance(1, 15) {
            f.len = *r.pick(&[LenForm::L16, LenForm::L64]);
        }
        if f.len == LenForm::L16 && f.payload.len() > 65535 {
            f.len = LenForm::L64;
        }
        let mut e = f.encode();
        // close payloads of every short length
        if op == 8 && r.chance(1, 2) {
            let n = r.below(4);
            let b = r.bytes(n);
            e = F::new(true, 8, b).masked(f.mask).encode();
        }
        if r.chance(1, 8) {
            let k = r.range(1, 3);
            for _ in 0..k {
                let i = r.below(e.len().min(16));
                e[i] ^= 1 << r.below(8);
            }
        }
        out.extend(e);
        fs.push(f);
    }
    if r.chance(1, 3) {
        let k = r.range(1, 4);
        heads::mutate(r, &mut out, k);
    }
    if r.chance(1, 4) {
        let n = r.below(out.len() + 1);
        out.truncate(n);
    }
    out
}

fn frames_case(c: &mut Case) -> Res {
    let rk = recv::ALL[(c.idx as usize) % recv::ALL.len()];
    let role = if (c.idx as usize / recv::ALL.len()) % 2 == 0 { Role::Client } else { Role::Server };
    let data = hostile_frames(&mut c.rng, role.recv_masked());
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    o.extra = 20;
    o.read_cap = *c.rng.pick(&[usize::MAX, usize::MAX, 1, 3, 17]);
    let mut lim = 0;
    if c.rng.chance(2, 3) {
        let f = *c.rng.pick(&[0usize, 1, 10, 125, 126, 1000, 70_000, 1 << 20]);
        let m = *c.rng.pick(&[0usize, 1, 10, 125, 1000, 70_000, 1 << 20]);
        o.limits = Some((f, m));
        lim = f + m;
    } else {
        lim += 3 * 100 * 1024 * 1024;
    }
    let steps = if c.rng.chance(1, 2) { vec![Step::Data(data.clone())] } else { gen::segment(&mut c.rng, &data, &[]).0 };
    let end = *c.rng.pick(&[End::Eof, End::Eof, End::Block, End::Err(ErrorKind::ConnectionReset)]);
    o.max_events = data.len() + 600;
    let what = format!("{:?}/{:?} limits {:?} input {}", rk, role, o.limits, hex(&data));
    c.note(what.clone());
    let (res, pk) = alloc::peak(|| recv::receive(rk, &o, steps, end));
    let got = match res {
        Ok(g) => g,
        Err(Fail::V(s)) => viol!("{} on input {}", s, hex(&data)),
        Err(h) => return Err(h),
    };
    let results = got.evs.len() + got.after.len();
    ensure!(
        pk <= budget(data.len() + 400 + 200 * results, lim),
        "{}: {} bytes allocated at peak after receiving {} bytes",
        what,
        pk,
        data.len()
    );
    let reads = got.stream.l().reads as usize;
    ensure!(reads <= 8 * data.len() + 50 * results + 4000, "{}: {} reads for {} bytes", what, reads, data.len());
    for e in got.evs.iter().chain(got.after.iter()) {
        match e {
            Ev::Msg(_) => c.ev("messages_delivered", 1),
            Ev::Err(s) => {
                c.ev("errors_reported", 1);
                c.seen("error_kinds", hash_s(s));
            }
            _ => c.ev("other_results", 1),
        }
    }
    c.ev("hostile_frame_streams", 1);
    c.eval(hash(&data) ^ rk as u64);
    c.sample(|| what);
    Ok(())
}

/// Big honest frames, complete or cut short: what is held stays within a small multiple of what came.
fn proportion(c: &mut Case) -> Res {
    let rk = recv::ALL[(c.idx as usize) % recv::ALL.len()];
    let role = if (c.idx as usize / recv::ALL.len()) % 2 == 0 { Role::Client } else { Role::Server };
    let total = *c.rng.pick(&[100_000usize, 300_000, 1 << 20, 3 << 20]);
    let nf = *c.rng.pick(&[1usize, 1, 2, 5, 40]);
    let announced_more = c.rng.chance(1, 2);
    let mut data = vec![];
    // within the frame limit room for the whole frame may be set aside
    let mut room = 0;
    for i in 0..nf {
        let n = total / nf;
        let k = gen::mask_for(&mut c.rng, role.recv_masked());
        let mut f = F::new(i + 1 == nf, if i == 0 { 2 } else { 0 }, vec![i as u8; n]).masked(k);
        if announced_more && i + 1 == nf {
            // the last frame announces far more than ever comes
            f.payload.clear();
            f.len = LenForm::L64;
            let l = *c.rng.pick(&[8u64 << 20, 40 << 20, 90 << 20]);
            room = 2 * l as usize;
            data.extend(f.header(l));
            data.extend(vec![1; n]);
        } else {
            data.extend(f.encode());
        }
    }
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    o.extra = 2;
    o.read_cap = *c.rng.pick(&[usize::MAX, 8192, 65536, 1000]);
    let chunk = *c.rng.pick(&[usize::MAX, 4096, 50_000]);
    let steps: Vec<Step> = data.chunks(chunk.min(data.len())).map(|d| Step::Data(d.to_vec())).collect();
    let what = format!("{:?}/{:?}: {} bytes in {} frames, read cap {}, chunks of {}, more announced: {}", rk, role, total, nf, o.read_cap, chunk, announced_more);
    c.note(what.clone());
    let n = data.len();
    let (res, pk) = alloc::peak(|| recv::receive(rk, &o, steps, if announced_more { End::Block } else { End::Eof }));
    let got = res?;
    ensure!(got.msgs().len() == !announced_more as usize, "{}: {} messages", what, got.msgs().len());
    c.ev("big_streams", 1);
    ensure!(pk <= (256 << 10) + PROP * n + room, "{}: {} bytes allocated at peak", what, pk);
    c.eval(hash_s(&what));
    Ok(())
}

/// Unlimited and limited low-level readers.
fn reader_case(c: &mut Case) -> Res {
    let masked = c.rng.chance(1, 2);
    let data = hostile_frames(&mut c.rng, masked);
    let lim = *c.rng.pick(&[0usize, 1, 125, 126, 4096, 1 << 20]);
    let which = c.idx % 5;
    let what = format!("reader {} masked {} limit {} input {}", which, masked, lim, hex(&data));
    c.note(what.clone());
    let (r, pk) = alloc::peak(|| -> Result<usize, Fail> {
        guard(|| {
            let mut n = 0;
            let mut cur = Cursor::new(&data[..]);
            loop {
                n += 1;
                let before = cur.position();
                let ok = match which {
                    0 => DataFrame::read_dataframe(&mut cur, masked).is_ok(),
                    1 => DataFrame::read_dataframe_with_limit(&mut cur, masked, lim).is_ok(),
                    2 => websocket::ws::util::header::read_header(&mut cur).is_ok(),
                    3 => Receiver::new_with_limits(masked, lim, lim).recv_dataframe(&mut cur).is_ok(),
                    _ => {
                        let mut codec = DataFrameCodec::<DataFrame>::new_with_limits(recv::ctx_of(if masked { Role::Server } else { Role::Client }), lim);
                        let mut b = BytesMut::from(&data[before as usize..]);
                        let l0 = b.len();
                        let r = codec.decode(&mut b);
                        let used = l0 - b.len();
                        cur.set_position(before + used as u64);
                        matches!(r, Ok(Some(_)))
                    }
                };
                if ok && cur.position() == before {
                    return Err(Fail::V(format!("{}: a frame was read without consuming input", what)));
                }
                if !ok || n > data.len() + 4 {
                    break;
                }
            }
            Ok(n)
        })
    });
    let n = match r {
        Ok(n) => n,
        Err(Fail::V(s)) => viol!("{}: {}", what, s),
        Err(h) => return Err(h),
    };
    ensure!(pk <= budget(data.len(), lim), "{}: {} bytes allocated at peak for {} bytes of input", what, pk, data.len());
    c.ev("frame_reads", n as u64);
    c.eval(hash(&data) ^ which);
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Side {
    SyncServer,
    AsyncServer,
    SyncClient,
    AsyncClient,
    ServerCodec,
    ClientCodec,
    /// a request parsed by somebody else's HTTP server
    PreParsed,
}
const SIDES: [Side; 7] = [Side::SyncServer, Side::AsyncServer, Side::SyncClient, Side::AsyncClient, Side::ServerCodec, Side::ClientCodec, Side::PreParsed];

fn head_case(c: &mut Case) -> Res {
    let side = SIDES[(c.idx as usize) % 7];
    let server = matches!(side, Side::SyncServer | Side::AsyncServer | Side::ServerCodec | Side::PreParsed);
    let k = hs::KEY;
    let mut data = match c.rng.below(12) {
        0 => {
            let n = c.rng.below(400);
            c.rng.bytes(n)
        }
        1 => {
            // very long head, never or late ended
            let unit: &[u8] = *c.rng.pick(&[&b"a"[..], b"X: y\r\n", b"\r\n", b"\n", b" ", b"A", b"GET ", b"\0"]);
            let n = *c.rng.pick(&[500usize, 9000, 70_000, 600_000]) / unit.len();
            let mut v = if c.rng.chance(1, 2) { b"GET / HTTP/1.1\r\n".to_vec() } else { vec![] };
            for _ in 0..n {
                v.extend_from_slice(unit);
            }
            if c.rng.chance(1, 2) {
                v.extend_from_slice(b"\r\n\r\n");
            }
            v
        }
        2 => {
            let mut h = if server { heads::good_request(&mut c.rng, &k) } else { heads::good_response(&mut c.rng, &k) };
            let n = *c.rng.pick(&[90usize, 95, 97, 98, 99, 100, 101, 200, 1000]);
            for i in 0..n {
                h.push(&format!("X-{}", i), "v");
            }
            h.encode()
        }
        3 | 4 | 5 | 6 => {
            // a well-formed head whose values are hostile
            let mut h = if server {
                if c.rng.chance(1, 2) {
                    heads::good_request(&mut c.rng, &k)
                } else {
                    let bad = c.rng.below(3);
                    crate::srv::request(&mut c.rng, bad, false).head
                }
            } else {
                heads::good_response(&mut c.rng, &k)
            };
            heads::spice(&mut c.rng, &mut h, server);
            c.ev("heads_with_hostile_values", 1);
            h.encode()
        }
        _ => {
            let server = server != c.rng.chance(1, 20);
            let h = if server { heads::good_request(&mut c.rng, &k) } else { heads::good_response(&mut c.rng, &k) };
            let mut v = h.encode();
            let n = c.rng.range(0, 6);
            heads::mutate(&mut c.rng, &mut v, n);
            v
        }
    };
    if c.rng.chance(1, 3) {
        let f = hostile_frames(&mut c.rng, server);
        data.extend(f);
    }
    let end = *c.rng.pick(&[End::Eof, End::Eof, End::Block, End::Err(ErrorKind::ConnectionReset)]);
    let steps = if data.len() < 3000 && c.rng.chance(1, 2) { gen::segment(&mut c.rng, &data, &[]).0 } else { vec![Step::Data(data.clone())] };
    let what = format!("{:?} input {}", side, hex(&data));
    c.note(what.clone());
    let mut accepted = false;
    let answer = c.rng.below(8);
    let (r, pk) = alloc::peak(|| {
        guard(|| -> Result<&'static str, Fail> {
            let s = Scripted::new(steps, end);
            let cont_sync = |cl: &mut websocket::sync::Client<Scripted>| {
                for _ in 0..20 {
                    if cl.recv_message().is_err() {
                        break;
                    }
                }
            };
            Ok(match side {
                Side::SyncServer => {
                    use websocket::server::upgrade::sync::IntoWs;
                    match IntoWs::into_ws(s) {
                        Ok(u) => {
                            accepted = true;
                            let _ = (u.protocols().len(), u.extensions().len(), u.origin().map(|o| o.len()), u.uri(), u.key().is_some(), u.version().is_some());
                            if answer > 5 {
                                let _ = match answer {
                                    6 => u.reject().is_ok(),
                                    _ => u.reject_with(&hyper::header::Headers::new()).is_ok(),
                                };
                                return Ok("rejected");
                            }
                            match u.accept_with_limits(70_000, 70_000) {
                                Ok(mut cl) => {
                                    cont_sync(&mut cl);
                                    "accepted"
                                }
                                Err(_) => "accept failed",
                            }
                        }
                        Err(e) => {
                            let _ = e.3.to_string();
                            "refused"
                        }
                    }
                }
                Side::AsyncServer => {
                    use websocket::server::upgrade::r#async::IntoWs;
                    let s = s.asy();
                    let ss = [s.clone()];
                    match drive(IntoWs::into_ws(s), &ss)? {
                        D::Done(u) => {
                            accepted = true;
                            let _ = (u.protocols().len(), u.extensions().len(), u.origin().map(|o| o.len()), u.uri());
                            if answer > 5 {
                                let _ = match answer {
                                    6 => drive(u.reject(), &ss).map(|_| ())?,
                                    _ => drive(u.reject_with(&hyper::header::Headers::new()), &ss).map(|_| ())?,
                                };
                                return Ok("rejected");
                            }
                            match drive(u.accept_with_limits(70_000, 70_000), &ss)? {
                                D::Done((mut cl, _)) => {
                                    use futures::Stream;
                                    for _ in 0..20 {
                                        match crate::exec::drive_fn(|| cl.poll(), &ss)? {
                                            D::Done(Some(_)) => {}
                                            _ => break,
                                        }
                                    }
                                    "accepted"
                                }
                                D::Err(_) => "accept failed",
                                D::Idle => "idle",
                            }
                        }
                        D::Err(e) => {
                            let _ = e.3.to_string();
                            "refused"
                        }
                        D::Idle => "idle",
                    }
                }
                Side::SyncClient => {
                    let mut b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(k).max_dataframe_size(70_000).max_message_size(70_000);
                    match b.connect_on(s) {
                        Ok(mut cl) => {
                            accepted = true;
                            let _ = (cl.protocols().len(), cl.extensions().len());
                            cont_sync(&mut cl);
                            "accepted"
                        }
                        Err(e) => {
                            let _ = e.to_string();
                            "refused"
                        }
                    }
                }
                Side::AsyncClient => {
                    let b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(k).max_dataframe_size(70_000).max_message_size(70_000);
                    let s = s.asy();
                    let ss = [s.clone()];
                    match drive(b.async_connect_on(s), &ss)? {
                        D::Done((mut cl, _)) => {
                            accepted = true;
                            use futures::Stream;
                            for _ in 0..20 {
                                match crate::exec::drive_fn(|| cl.poll(), &ss)? {
                                    D::Done(Some(_)) => {}
                                    _ => break,
                                }
                            }
                            "accepted"
                        }
                        D::Err(e) => {
                            let _ = e.to_string();
                            "refused"
                        }
                        D::Idle => "idle",
                    }
                }
                Side::PreParsed => {
                    use websocket::server::upgrade::sync::{IntoWs, RequestStreamPair};
                    let mut b = BytesMut::from(&data[..]);
                    match HttpServerCodec.decode(&mut b) {
                        Ok(Some(req)) => {
                            let pre = websocket::server::upgrade::validate(&req.subject.0, req.version, &req.headers).is_ok();
                            match IntoWs::into_ws(RequestStreamPair(s, req)) {
                                Ok(u) => {
                                    if !pre {
                                        return Err(Fail::V("validate refuses what the pair admits".into()));
                                    }
                                    let _ = (u.protocols().len(), u.extensions().len(), u.origin().map(|o| o.len()), u.uri(), u.key().is_some(), u.version().is_some());
                                    match answer {
                                        6 => {
                                            let _ = u.reject().is_ok();
                                            "rejected"
                                        }
                                        _ => match u.accept() {
                                            Ok(mut cl) => {
                                                cont_sync(&mut cl);
                                                "accepted"
                                            }
                                            Err(_) => "accept failed",
                                        },
                                    }
                                }
                                Err((_, req, e)) => {
                                    let _ = (e.to_string().len(), req.headers.len());
                                    "refused"
                                }
                            }
                        }
                        Ok(None) => "unparsed",
                        Err(_) => "unparsed",
                    }
                }
                Side::ServerCodec | Side::ClientCodec => {
                    let mut b = BytesMut::new();
                    let mut out = "idle";
                    let mut n = 0;
                    let steps: Vec<Step> = s.l().steps.iter().cloned().collect();
                    for st in steps {
                        if let Step::Data(d) = st {
                            b.extend_from_slice(&d);
                        }
                        loop {
                            n += 1;
                            if n > 4 * data.len() + 100 {
                                return Err(Fail::V("decoder yields without consuming".into()));
                            }
                            let r = if side == Side::ServerCodec {
                                HttpServerCodec.decode(&mut b).map(|o| o.is_some()).map_err(|e| e.to_string())
                            } else {
                                HttpClientCodec.decode(&mut b).map(|o| o.is_some()).map_err(|e| e.to_string())
                            };
                            match r {
                                Ok(true) => out = "head",
                                Ok(false) => break,
                                Err(_) => {
                                    out = "refused";
                                    break;
                                }
                            }
                        }
                    }
                    out
                }
            })
        })
    });
    let name = match r {
        Ok(n) => n,
        Err(Fail::V(s)) => viol!("{}: {}", what, s),
        Err(h) => return Err(h),
    };
    ensure!(pk <= budget(data.len() + 20_000, 140_000), "{}: {} bytes allocated at peak for {} bytes of input", what, pk, data.len());
    // an ended or failed stream may not leave the handshake waiting
    if end != End::Block && !matches!(side, Side::ServerCodec | Side::ClientCodec | Side::PreParsed) {
        ensure!(name != "idle", "{}: waiting on a finished stream", what);
    }
    c.ev(&format!("heads_{}", name.replace(' ', "_")), 1);
    let _ = accepted;
    c.eval(hash(&data) ^ side as u64);
    c.sample(|| what);
    Ok(())
}

/// Header values from the wire.
fn value_case(c: &mut Case) -> Res {
    let mut v = match c.rng.below(7) {
        6 => heads::long_text(&mut c.rng).into_bytes(),
        0 => {
            let n = c.rng.below(60);
            c.rng.bytes(n)
        }
        1 => {
            let k = heads::b16(&mut c.rng);
            b64(&k).into_bytes()
        }
        2 => b"permessage-deflate; client_max_window_bits=15; x=\"y\", foo; bar, baz".to_vec(),
        3 => b"chat, superchat,x".to_vec(),
        4 => {
            let n = c.rng.range(1, 200);
            let unit: &[u8] = *c.rng.pick(&[&b";"[..], b",", b"=", b" ;=", b"a;b=c,", b"\"", b"\\", b"=="]);
            unit.repeat(n)
        }
        _ => b"http://example.com:80".to_vec(),
    };
    let n = if v.len() > 200 && c.rng.chance(2, 3) { 0 } else { c.rng.below(5) };
    heads::mutate(&mut c.rng, &mut v, n);
    let mut raws = vec![v.clone()];
    for _ in 0..c.rng.below(3) {
        let n = c.rng.below(20);
        raws.push(c.rng.bytes(n));
    }
    let what = format!("header value {}", hex(&v));
    c.note(what.clone());
    let (r, pk) = alloc::peak(|| {
        guard(|| {
            let mut n = 0;
            for raw in [&raws[..1], &raws[..]].iter() {
                macro_rules! go {
                    ($t:ty) => {
                        if let Ok(h) = <$t>::parse_header(raw) {
                            let mut hs = hyper::header::Headers::new();
                            hs.set(h);
                            n += hs.to_string().len();
                        }
                        let mut hs = hyper::header::Headers::new();
                        hs.set_raw(<$t>::header_name(), raw.to_vec());
                        if hs.get::<$t>().is_some() {
                            n += hs.to_string().len();
                        }
                    };
                }
                go!(WebSocketExtensions);
                go!(WebSocketProtocol);
                go!(WebSocketKey);
                go!(WebSocketAccept);
                go!(WebSocketVersion);
                go!(Origin);
            }
            if let Ok(s) = std::str::from_utf8(&v) {
                if let Ok(e) = Extension::from_str(s) {
                    n += e.to_string().len();
                }
                n += WebSocketKey::from_str(s).is_ok() as usize;
                n += WebSocketAccept::from_str(s).is_ok() as usize;
            }
            Ok(n)
        })
    });
    match r {
        Ok(_) => {}
        Err(Fail::V(s)) => viol!("{}: {}", what, s),
        Err(h) => return Err(h),
    }
    let total: usize = raws.iter().map(|r| r.len()).sum();
    ensure!(pk <= FIXED + 2000 * (total + 1), "{}: {} bytes allocated at peak", what, pk);
    c.ev("header_values", 1);
    c.eval(hash(&v));
    Ok(())
}

/// A handshake of endless bytes must be refused after a bounded amount by the blocking interfaces.
fn endless_case(c: &mut Case) -> Res {
    let server = c.idx % 2 == 0;
    let unit: Vec<u8> = match c.idx / 2 % 6 {
        0 => b"a".to_vec(),
        1 => b"X-Y: zzzz\r\n".to_vec(),
        2 => b"\r\n".to_vec(),
        3 => b"abc ".to_vec(),
        4 => b"X: ".to_vec(),
        _ => vec![0],
    };
    let total = 4 << 20;
    let mut v = if server { b"GET / HTTP/1.1\r\nHost: x\r\nX: ".to_vec() } else { b"HTTP/1.1 101 Switching\r\nX: ".to_vec() };
    if c.idx / 12 % 2 == 1 {
        v.clear();
    }
    while v.len() < total {
        v.extend_from_slice(&unit);
    }
    let s = Scripted::new(vec![Step::Data(v)], End::Block);
    s.l().read_cap = *c.rng.pick(&[usize::MAX, 4096, 1500]);
    let what = format!("endless {} head of {:?}", if server { "request" } else { "response" }, String::from_utf8_lossy(&unit));
    let s2 = s.clone();
    let (ok, pk) = alloc::peak(|| {
        guard(|| {
            Ok(if server {
                use websocket::server::upgrade::sync::IntoWs;
                IntoWs::into_ws(s2).is_ok()
            } else {
                ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(hs::KEY).connect_on(s2).is_ok()
            })
        })
    });
    let ok = ok?;
    ensure!(!ok, "{}: accepted", what);
    let used = s.consumed();
    ensure!(used < total, "{}: all {} bytes read without a verdict", what, used);
    ensure!(pk <= budget(used, 0), "{}: {} bytes allocated at peak after {} bytes", what, pk, used);
    c.ev("endless_heads_refused", 1);
    c.eval(hash_s(&what) ^ c.idx);
    Ok(())
}

pub fn run(x: &Ctx) {
    x.scale(3);
    x.rule("a case feeds one hostile input (random bytes, frame streams with wrong lengths, flags, opcodes, masks, floods of tiny frames, bit flips and splices of valid streams; mutated, oversized or endless HTTP heads; mutated header values) to one receiving or handshake interface, keeps calling it after errors, and watches for panics, aborts (supervised child process), lack of progress (watchdog on CPU time, read counter, result counter) and peak allocation of the calling thread (counting allocator) beyond 1 MiB + 400 bytes per received byte + 4 x configured limits; distinct by input bytes and interface");
    x.assume("memory proportionality is judged with a generous constant (400 bytes per received byte), since an empty fragment of two bytes legitimately costs a frame record");
    x.run("hostile_frames", x.q(60_000, 3_000_000), frames_case);
    x.run("proportion", 64 * x.q(2, 60), proportion);
    x.need("big_streams", 64);
    x.run("frame_readers", x.q(30_000, 1_500_000), reader_case);
    x.run("hostile_heads", x.q(30_000, 1_000_000), head_case);
    x.run("header_values", x.q(20_000, 1_000_000), value_case);
    x.run("endless_heads", x.q(48, 48), endless_case);
    x.need("messages_delivered", 1000);
    x.need("errors_reported", 10_000);
    x.need("heads_accepted", 100);
    x.need("heads_refused", 1000);
    x.need("endless_heads_refused", 20);
}
