//! C18: no byte is lost between handshake and messages.
use crate::core::*;
use crate::exec::{drive, drive_fn, D};
use crate::gen;
use crate::heads;
use crate::hs;
use crate::net;
use crate::recv::{self, errclass, Opts};
use crate::srv::{self, AcceptPlan, What, SE};
use crate::stream::*;
use crate::wire::*;
use futures::{Future, Stream as _};
use std::io::{ErrorKind, Read, Write};
use websocket::{ClientBuilder, WebSocketError};

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum K {
    Sync,
    SyncIter,
    SyncSplit,
    Async,
    AsyncSplit,
}
const KINDS: [K; 5] = [K::Sync, K::SyncIter, K::SyncSplit, K::Async, K::AsyncSplit];
const ROLES: [Role; 2] = [Role::Client, Role::Server];

fn head_of(r: &mut Rng, role: Role) -> Vec<u8> {
    match role {
        Role::Client => {
            let mut h = heads::good_response(r, &hs::KEY);
            if r.chance(1, 30) {
                let n = r.range(2000, 30_000);
                h.push("X-Long", &"v".repeat(n));
            }
            h.encode()
        }
        Role::Server => {
            let mut h = heads::good_request(r, &hs::KEY);
            if r.chance(1, 30) {
                let n = r.range(2000, 30_000);
                h.push("X-Long", &"v".repeat(n));
            }
            h.encode()
        }
    }
}
fn frames(r: &mut Rng, ms: &[M], role: Role, frag: bool) -> (Vec<F>, Vec<M>) {
    if frag {
        gen::fragmented(r, ms, role.recv_masked(), 4, 3)
    } else {
        (ms.iter().map(|m| gen::frame_of(r, m, role.recv_masked())).collect(), ms.to_vec())
    }
}
fn fin_sync<F: FnMut() -> Result<websocket::OwnedMessage, WebSocketError>>(mut f: F) -> (Vec<M>, String) {
    let mut v = vec![];
    let mut waits = 0;
    loop {
        match f() {
            Ok(m) => v.push(M::of(&m)),
            Err(WebSocketError::IoError(ref e)) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) && waits < 1000 => waits += 1,
            Err(e) => return (v, errclass(&e)),
        }
    }
}
/// handshake and receive everything
fn all(k: K, role: Role, steps: Vec<Step>) -> Result<(Vec<M>, String), Fail> {
    guard(|| {
        let s = Scripted::new(steps, End::Eof);
        let o = Opts::new(role);
        let ss = [s.clone()];
        let asy = |x: D<Option<websocket::OwnedMessage>, WebSocketError>| -> Result<Result<websocket::OwnedMessage, WebSocketError>, Fail> {
            match x {
                D::Done(Some(m)) => Ok(Ok(m)),
                D::Done(None) => Ok(Err(WebSocketError::NoDataAvailable)),
                D::Err(e) => Ok(Err(e)),
                D::Idle => viol!("the receiving side is stalled although its input has ended"),
            }
        };
        Ok(match k {
            K::Sync => {
                let mut c = recv::sync_conn(s, &o)?;
                fin_sync(|| c.recv_message())
            }
            K::SyncIter => {
                let mut c = recv::sync_conn(s, &o)?;
                let mut it = c.incoming_messages();
                fin_sync(|| it.next().unwrap_or(Err(WebSocketError::NoDataAvailable)))
            }
            K::SyncSplit => {
                let (mut r, _w) = recv::sync_conn_pair(s, &o)?.split().map_err(|e| Fail::V(format!("split: {}", e)))?;
                fin_sync(|| r.recv_message())
            }
            K::Async | K::AsyncSplit => {
                let c = recv::async_conn(s, &o)?;
                let mut v = vec![];
                let end;
                if k == K::Async {
                    let mut c = c;
                    loop {
                        match asy(drive_fn(|| c.poll(), &ss)?)? {
                            Ok(m) => v.push(M::of(&m)),
                            Err(e) => {
                                end = errclass(&e);
                                break;
                            }
                        }
                    }
                } else {
                    let (_s, mut c) = c.split();
                    loop {
                        match asy(drive_fn(|| c.poll(), &ss)?)? {
                            Ok(m) => v.push(M::of(&m)),
                            Err(e) => {
                                end = errclass(&e);
                                break;
                            }
                        }
                    }
                }
                (v, end)
            }
        })
    })
}
fn check(c: &mut Case, k: K, role: Role, head: usize, data: &[u8], steps: Vec<Step>, want: &[M]) -> Res {
    let shape: Vec<String> = steps.iter().take(30).map(|s| match s {
        Step::Data(d) => d.len().to_string(),
        Step::Err(k) => format!("{:?}", k),
    }).collect();
    let (got, end) = all(k, role, steps)?;
    ensure!(
        got == want && end == "NoData",
        "{:?}/{:?}: {} handshake bytes and {} message bytes in reads of {:?}: sent {}, received {} (then {})",
        k,
        role,
        head,
        data.len() - head,
        shape,
        shorts(want),
        shorts(&got),
        end
    );
    c.ev("connections", 1);
    c.ev("messages_behind_handshakes", want.len() as u64);
    c.seen("read_shape", hash_s(&format!("{:?}", shape)));
    Ok(())
}
fn small(r: &mut Rng) -> Vec<M> {
    let mut v = vec![M::Text("\r\n\r\n".into()), M::Ping(vec![]), M::Bin(b"HTTP/1.1 101 X\r\n\r\n".to_vec()), M::Text("\u{e9}".into()), M::Close(Some((1000, "x".into())))];
    r.shuffle(&mut v);
    let k = r.range(1, 5);
    v.truncate(k);
    v
}
/// every read boundary of a short exchange
fn boundaries(c: &mut Case) -> Res {
    let i = c.idx as usize % 10;
    let (k, role) = (KINDS[i / 2], ROLES[i % 2]);
    let head = recv::handshake_bytes(role);
    let ms = small(&mut c.rng);
    let (fs, want) = frames(&mut c.rng, &ms, role, false);
    let mut data = head.clone();
    data.extend(encode_all(&fs));
    let n = data.len();
    c.note(format!("{:?}/{:?} {}", k, role, shorts(&ms)));
    let asy = matches!(k, K::Async | K::AsyncSplit);
    for cut in 1..n {
        for wait in [false, true] {
            // a blocking handshake cannot be continued after a wait
            if wait && !asy && cut < head.len() {
                continue;
            }
            let mut steps = gen::at_cuts(&data, &[cut]);
            if wait {
                steps.insert(1, Step::Err(ErrorKind::WouldBlock));
            }
            check(c, k, role, head.len(), &data, steps, &want)?;
        }
    }
    let lo = head.len().saturating_sub(5);
    let hi = (head.len() + 8).min(n - 1);
    for a in lo..=hi {
        for b in a + 1..=hi {
            check(c, k, role, head.len(), &data, gen::at_cuts(&data, &[a, b]), &want)?;
        }
    }
    check(c, k, role, head.len(), &data, vec![Step::Data(data.clone())], &want)?;
    let each: Vec<usize> = (1..n).collect();
    check(c, k, role, head.len(), &data, gen::at_cuts(&data, &each), &want)?;
    c.eval(hash(&data) ^ i as u64);
    Ok(())
}
fn generated(c: &mut Case) -> Res {
    let i = c.idx as usize % 10;
    let (k, role) = (KINDS[i / 2], ROLES[i % 2]);
    let head = head_of(&mut c.rng, role);
    let big = c.idx % 12 == 0;
    let ms = gen::msgs(&mut c.rng, 8, big);
    let frag = c.rng.chance(1, 2);
    let (fs, want) = frames(&mut c.rng, &ms, role, frag);
    let mut data = head.clone();
    data.extend(encode_all(&fs));
    let mut b: Vec<usize> = vec![head.len()];
    b.extend(gen::bounds_of(&fs).iter().map(|x| x + head.len()));
    let (mut steps, _) = gen::segment(&mut c.rng, &data, &b);
    if matches!(k, K::Async | K::AsyncSplit) && c.rng.chance(1, 2) {
        steps = gen::with_waits(&mut c.rng, steps, &[ErrorKind::WouldBlock], 1, 3);
    }
    c.note(format!("{:?}/{:?} head {} {}", k, role, head.len(), shorts(&want)));
    check(c, k, role, head.len(), &data, steps, &want)?;
    c.eval(hash(&data) ^ i as u64);
    c.sample(|| format!("{:?}/{:?} {} head bytes then {}", k, role, head.len(), shorts(&ms)));
    Ok(())
}
/// long handshakes make the buffers large that message bytes are left in
fn long_heads(c: &mut Case) -> Res {
    let i = c.idx as usize % 10;
    let (k, role) = (KINDS[i / 2], ROLES[i % 2]);
    let mut h = match role {
        Role::Client => heads::good_response(&mut c.rng, &hs::KEY),
        Role::Server => heads::good_request(&mut c.rng, &hs::KEY),
    };
    for j in 0..c.rng.range(1, 20) {
        let n = c.rng.range(100, 9000);
        h.push(&format!("X-Long-{}", j), &"v".repeat(n));
    }
    let head = h.encode();
    let ms: Vec<M> = (0..c.rng.range(1, 12))
        .map(|_| {
            let n = c.rng.below(20_000);
            M::Bin(gen::payload(&mut c.rng, n))
        })
        .collect();
    let frag = c.rng.chance(1, 3);
    let (fs, want) = frames(&mut c.rng, &ms, role, frag);
    let mut data = head.clone();
    data.extend(encode_all(&fs));
    let steps = match c.rng.below(4) {
        0 => vec![Step::Data(data.clone())],
        1 => gen::at_cuts(&data, &[c.rng.range(1, head.len())]),
        2 => {
            let a = c.rng.range(1, head.len());
            let b = c.rng.range(a, data.len());
            gen::at_cuts(&data, &[a, b])
        }
        _ => {
            let z = c.rng.range(4000, 40_000);
            data.chunks(z).map(|d| Step::Data(d.to_vec())).collect()
        }
    };
    check(c, k, role, head.len(), &data, steps, &want)?;
    c.ev("behind_long_heads", 1);
    c.eval(hash(&data) ^ i as u64);
    Ok(())
}
/// receive some messages, take the connection apart, and account for every byte
fn dismantle(c: &mut Case) -> Res {
    let role = ROLES[c.idx as usize % 2];
    let way = c.idx as usize / 2 % 7;
    let asy = way >= 4;
    let head = head_of(&mut c.rng, role);
    let mut ms = gen::msgs(&mut c.rng, 8, false);
    if ms.is_empty() {
        ms.push(M::Text("only".into()));
    }
    let frag = c.rng.chance(1, 3);
    let (fs, want) = frames(&mut c.rng, &ms, role, frag);
    let enc: Vec<Vec<u8>> = fs.iter().map(|f| f.encode()).collect();
    let body: Vec<u8> = enc.concat();
    let mut data = head.clone();
    data.extend_from_slice(&body);
    let p = c.rng.range(head.len(), data.len());
    let mut b: Vec<usize> = vec![head.len()];
    b.extend(gen::bounds_of(&fs).iter().map(|x| x + head.len()).filter(|x| *x < p));
    let (mut steps, _) = gen::segment(&mut c.rng, &data[..p], &b);
    let kind = if asy { ErrorKind::WouldBlock } else { *c.rng.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut]) };
    let blocked = c.rng.chance(2, 3);
    if blocked {
        for _ in 0..c.rng.range(1, 3) {
            steps.push(Step::Err(kind));
        }
    }
    if p < data.len() {
        let (more, _) = gen::segment(&mut c.rng, &data[p..], &[]);
        steps.extend(more);
    }
    let take = c.rng.below(want.len() + 1);
    let ways = ["into_stream", "split", "split pair", "reader_mut", "into_parts", "async split", "async reunite"];
    c.note(format!("{} {:?} head {} arriving first {} then wait {} take {} of {}", ways[way], role, head.len(), p, blocked, take, shorts(&want)));
    let who = format!("{}/{:?}", ways[way], role);
    // a rest of raw bytes is right if it starts at the end of what was delivered, or behind fragments taken since
    let suffix = |got: usize, rest: &[u8]| -> Res {
        ensure!(body.ends_with(rest), "{}: after {} of {} messages the bytes left are not the end of what was sent: {} ({} bytes) of {} bytes", who, got, want.len(), hex(rest), rest.len(), body.len());
        let start = body.len() - rest.len();
        // frame boundaries reachable after `got` messages
        let (mut done, mut pos, mut ok) = (0usize, 0usize, vec![0usize]);
        for (f, e) in fs.iter().zip(enc.iter()) {
            pos += e.len();
            if f.fin {
                done += 1;
            }
            if done > got {
                break;
            }
            if done == got && f.fin {
                ok = vec![];
            }
            if done == got {
                ok.push(pos);
            }
        }
        if got == 0 {
            ok.push(0);
        }
        ensure!(ok.contains(&start), "{}: after {} of {} messages the bytes left start at {} of {}, frames end at {:?}", who, got, want.len(), start, body.len(), ok);
        Ok(())
    };
    guard(|| {
        let s = Scripted::new(steps.clone(), End::Eof);
        let o = Opts::new(role);
        let mut got: Vec<M> = vec![];
        if !asy {
            macro_rules! some {
                ($c:expr, $ms:expr) => {
                    while got.len() < $ms {
                        match $c.recv_message() {
                            Ok(m) => got.push(M::of(&m)),
                            Err(WebSocketError::IoError(ref e)) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => break,
                            Err(e) => viol!("{}: {} while {} of {} messages are delivered", who, errclass(&e), got.len(), want.len()),
                        }
                    }
                };
            }
            match way {
                0 => {
                    let mut cl = recv::sync_conn(s.clone(), &o)?;
                    some!(cl, take);
                    let n = got.len();
                    let (x, bf) = cl.into_stream();
                    ensure!(x.id() == s.id(), "{}: another stream came back", who);
                    let mut rest = bf.map(|(v, a, b)| v[a.min(b)..a.max(b)].to_vec()).unwrap_or_default();
                    rest.extend(s.unread());
                    ensure!(got[..] == want[..n], "{}: delivered {}, sent {}", who, shorts(&got), shorts(&want));
                    suffix(n, &rest)?;
                }
                1 => {
                    let mut cl = recv::sync_conn(s.clone(), &o)?;
                    some!(cl, take);
                    let (mut r, _w) = cl.split().map_err(|e| Fail::V(format!("split: {}", e)))?;
                    let (more, end) = fin_sync(|| r.recv_message());
                    got.extend(more);
                    ensure!(got == want && end == "NoData", "{} after {}: delivered {} (then {}), sent {}", who, take, shorts(&got), end, shorts(&want));
                }
                2 => {
                    let mut cl = recv::sync_conn_pair(s.clone(), &o)?;
                    some!(cl, take);
                    let (mut r, _w) = cl.split().map_err(|e| Fail::V(format!("split: {}", e)))?;
                    let mut waits = 0;
                    let (more, end) = {
                        let mut it = r.incoming_messages();
                        fin_sync(|| {
                            waits += 1;
                            it.next().unwrap_or(Err(WebSocketError::NoDataAvailable))
                        })
                    };
                    got.extend(more);
                    ensure!(got == want && end == "NoData", "{} after {}: delivered {} (then {}), sent {}", who, take, shorts(&got), end, shorts(&want));
                }
                _ => {
                    // no waiting here: the raw reader sits below the frame parser
                    s.l().steps.retain(|x| matches!(x, Step::Data(_)));
                    let mut cl = recv::sync_conn(s.clone(), &o)?;
                    some!(cl, take);
                    let n = got.len();
                    let mut rest = vec![];
                    cl.reader_mut().read_to_end(&mut rest).map_err(|e| Fail::V(format!("{}: {}", who, e)))?;
                    ensure!(got[..] == want[..n] && n == take, "{}: delivered {}, sent {}", who, shorts(&got), shorts(&want));
                    suffix(n, &rest)?;
                }
            }
        } else {
            let ss = [s.clone()];
            let mut cl = recv::async_conn(s.clone(), &o)?;
            while got.len() < take {
                match drive_fn(|| cl.poll(), &ss)? {
                    D::Done(Some(m)) => got.push(M::of(&m)),
                    D::Done(None) => viol!("{}: ended while {} of {} messages are delivered", who, got.len(), want.len()),
                    D::Err(e) => viol!("{}: {} while {} of {} messages are delivered", who, errclass(&e), got.len(), want.len()),
                    D::Idle => viol!("{}: stalled", who),
                }
            }
            let mut cl = match way {
                4 => {
                    let n = got.len();
                    let parts = cl.into_parts();
                    ensure!(parts.io.id() == s.id(), "{}: another stream came back", who);
                    let mut rest = parts.read_buf.to_vec();
                    rest.extend(s.unread());
                    ensure!(got[..] == want[..n], "{}: delivered {}, sent {}", who, shorts(&got), shorts(&want));
                    return suffix(n, &rest);
                }
                5 => {
                    let (_s, mut r) = cl.split();
                    loop {
                        match drive_fn(|| r.poll(), &ss)? {
                            D::Done(Some(m)) => got.push(M::of(&m)),
                            D::Done(None) => break,
                            D::Err(e) => viol!("{}: {} after {} of {} messages", who, errclass(&e), got.len(), want.len()),
                            D::Idle => viol!("{}: stalled", who),
                        }
                    }
                    ensure!(got == want, "{}: delivered {}, sent {}", who, shorts(&got), shorts(&want));
                    return Ok(());
                }
                _ => {
                    let (a, mut b) = cl.split();
                    if got.len() < want.len() {
                        match drive_fn(|| b.poll(), &ss)? {
                            D::Done(Some(m)) => got.push(M::of(&m)),
                            _ => viol!("{}: message {} of {} is missing after the split", who, got.len(), want.len()),
                        }
                    }
                    b.reunite(a).map_err(|_| Fail::H("reunite".into()))?
                }
            };
            loop {
                match drive_fn(|| cl.poll(), &ss)? {
                    D::Done(Some(m)) => got.push(M::of(&m)),
                    D::Done(None) => break,
                    D::Err(e) => viol!("{}: {} after {} of {} messages", who, errclass(&e), got.len(), want.len()),
                    D::Idle => viol!("{}: stalled", who),
                }
            }
            ensure!(got == want, "{}: delivered {}, sent {}", who, shorts(&got), shorts(&want));
        }
        Ok(())
    })?;
    c.ev("dismantled", 1);
    c.ev(&format!("dismantled by {}", ways[way]), 1);
    if blocked {
        c.ev("dismantled_after_a_wait", 1);
    }
    c.eval(hash(&data) ^ (p as u64) << 20 ^ take as u64 ^ (way as u64) << 50);
    Ok(())
}
/// bytes behind a head: any at all, also such as look like more of the head
fn tail(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = r.bytes(n);
    if r.chance(1, 2) {
        let start: &[u8] = *r.pick(&[&b"\r\n"[..], b"\r\n\r\n", b"\n", b"\r", b"\0", b"\0\0\0\0", b" ", b"GET / HTTP/1.1\r\n\r\n", b"HTTP/1.1 101 X\r\n\r\n", b"X: y\r\n\r\n", b"0\r\n\r\n", b"\xef\xbb\xbf", b"\x88\x00", b"\x8a\x80\0\0\0\0"]);
        let mut w = start.to_vec();
        if r.chance(1, 2) {
            w.extend_from_slice(&v);
        }
        v = w;
    }
    v
}
/// the stream taken back before anything was received: every byte behind the head, whatever it is
fn raw(c: &mut Case) -> Res {
    let role = ROLES[c.idx as usize % 2];
    let way = c.idx as usize / 2 % 4;
    let ways = ["into_stream", "reader_mut", "split reader", "into_parts"];
    let mut data = head_of(&mut c.rng, role);
    let h = data.len();
    let n = c.rng.below(300);
    let tail = tail(&mut c.rng, n);
    data.extend_from_slice(&tail);
    let (mut steps, _) = gen::segment(&mut c.rng, &data, &[h]);
    if c.rng.chance(1, 3) {
        steps = vec![Step::Data(data.clone())];
    }
    let who = format!("{}/{:?}", ways[way], role);
    c.note(format!("{} head {} followed by {}", who, h, hex(&tail)));
    guard(|| {
        let s = Scripted::new(steps.clone(), End::Eof);
        let o = Opts::new(role);
        let mut rest = vec![];
        match way {
            0 => {
                let cl = recv::sync_conn(s.clone(), &o)?;
                let (_x, bf) = cl.into_stream();
                rest = bf.map(|(v, a, b)| v[a.min(b)..a.max(b)].to_vec()).unwrap_or_default();
                rest.extend(s.unread());
            }
            1 => {
                let mut cl = recv::sync_conn(s.clone(), &o)?;
                cl.reader_mut().read_to_end(&mut rest).map_err(|e| Fail::V(format!("{}: {}", who, e)))?;
            }
            2 => {
                let cl = recv::sync_conn(s.clone(), &o)?;
                let (mut r, _w) = cl.split().map_err(|e| Fail::V(format!("split: {}", e)))?;
                r.stream.read_to_end(&mut rest).map_err(|e| Fail::V(format!("{}: {}", who, e)))?;
            }
            _ => {
                let cl = recv::async_conn(s.clone(), &o)?;
                let parts = cl.into_parts();
                rest = parts.read_buf.to_vec();
                rest.extend(s.unread());
            }
        }
        ensure!(rest == tail, "{}: {} bytes follow the head: {}; found {} bytes: {}", who, tail.len(), hex(&tail), rest.len(), hex(&rest));
        Ok(())
    })?;
    c.ev("raw_remainders", 1);
    c.eval(hash(&data) ^ (way as u64) << 50);
    Ok(())
}
/// bytes behind the request are handed to the application that only looks
fn looked(c: &mut Case) -> Res {
    let mut q = srv::request(&mut c.rng, 0, false);
    srv::announce(c, &mut q);
    let n = c.rng.range(1, 400);
    let tail = tail(&mut c.rng, n);
    let mut bytes = q.bytes();
    let head = bytes.len();
    bytes.extend_from_slice(&tail);
    let e = *c.rng.pick(&[SE::Sync, SE::SyncTcpLike, SE::Async]);
    let steps = crate::c13::script(c, e, &bytes, head);
    let rec = srv::serve(e, &q, steps, End::Eof, &What::Look, vec![], vec![])?;
    ensure!(rec.accepted, "{:?}: refused {:?}", e, rec.err);
    let mut v = rec.handed.clone().unwrap_or_default();
    v.extend_from_slice(&rec.unread);
    ensure!(v == tail, "{:?}: {} bytes follow the request; upgrade.buffer and stream hold {}", e, hex(&tail), hex(&v));
    c.ev("upgrades_inspected", 1);
    c.eval(hash(&bytes));
    Ok(())
}
fn sockets(c: &mut Case) -> Res {
    let way = c.idx as usize % 6;
    let ways = ["connect_insecure", "async_connect_insecure", "Server", "HyperRequest", "async Server", "connect"];
    let role = if matches!(way, 0 | 1 | 5) { Role::Client } else { Role::Server };
    let big = c.idx % 30 == 0;
    let ms = gen::msgs(&mut c.rng, 8, big);
    let frag = c.rng.chance(1, 2);
    let (fs, want) = frames(&mut c.rng, &ms, role, frag);
    let body = encode_all(&fs);
    c.note(format!("{} {}", ways[way], shorts(&want)));
    let (got, end): (Vec<M>, String) = match way {
        0 | 1 | 5 => {
            let (l, la) = net::listener()?;
            let k = c.rng.below(4);
            let cut = c.rng.below(body.len() + 1);
            let body2 = body.clone();
            let peer = std::thread::spawn(move || -> Result<(), String> {
                let (mut s, _) = l.accept().map_err(|e| e.to_string())?;
                net::guard_sock(&s);
                if k == 0 {
                    net::answer(&mut s, &body2[..cut])?;
                    s.write_all(&body2[cut..]).map_err(|e| e.to_string())?;
                } else {
                    net::answer(&mut s, &body2)?;
                }
                s.shutdown(std::net::Shutdown::Write).map_err(|e| e.to_string())?;
                let mut v = vec![];
                let _ = s.read_to_end(&mut v);
                Ok(())
            });
            let mut b = ClientBuilder::new(&format!("ws://{}/x", la)).map_err(|e| Fail::H(e.to_string()))?;
            let r = match way {
                0 => guard(|| match b.connect_insecure() {
                    Ok(mut cl) => Ok(fin_sync(|| cl.recv_message())),
                    Err(e) => viol!("connect_insecure: {}", errclass(&e)),
                })?,
                5 => guard(|| match b.connect(None) {
                    Ok(mut cl) => Ok(fin_sync(|| cl.recv_message())),
                    Err(e) => viol!("connect: {}", errclass(&e)),
                })?,
                _ => match guard(|| net::block(b.async_connect_insecure().and_then(|(cl, _)| drain_async(cl))))? {
                    Ok(r) => r,
                    Err(e) => viol!("async_connect_insecure: {}", errclass(&e)),
                },
            };
            peer.join().map_err(|_| Fail::H("peer".into()))?.map_err(Fail::H)?;
            r
        }
        2 | 3 => {
            let e = if way == 2 { SE::Server } else { SE::Hyper };
            let q = srv::request(&mut c.rng, 0, false);
            let mut bytes = q.bytes();
            let head = bytes.len();
            bytes.extend_from_slice(&body);
            let steps = crate::c13::script(c, e, &bytes, head);
            let rec = srv::serve(e, &q, steps, End::Eof, &What::Accept(AcceptPlan { collect: true, ..AcceptPlan::default() }), vec![], vec![])?;
            ensure!(rec.accepted && rec.accept_err.is_none(), "{}: {:?} {:?}", ways[way], rec.err, rec.accept_err);
            (rec.messages, rec.receive_end.unwrap_or_default())
        }
        _ => {
            let mut data = heads::good_request(&mut c.rng, &hs::KEY).encode();
            let head = data.len();
            data.extend_from_slice(&body);
            let chunks: Vec<Vec<u8>> = crate::c13::script(c, SE::Server, &data, head).into_iter().filter_map(|s| if let Step::Data(d) = s { Some(d) } else { None }).collect();
            guard(|| {
                let h = tokio::reactor::Handle::default();
                let server = websocket::r#async::Server::bind(net::any().as_str(), &h).map_err(|e| Fail::H(format!("bind: {}", e)))?;
                let addr = server.local_addr().map_err(|e| Fail::H(e.to_string()))?;
                let s = srv::tcp_pair_send(addr, &chunks)?;
                let _ = s.shutdown(std::net::Shutdown::Write);
                let f = server.incoming().into_future().map_err(|(e, _)| format!("incoming: {}", e.error)).and_then(|(u, rest)| {
                    let (u, _) = u.expect("the stream of connections does not end");
                    u.accept().map_err(|e| format!("accept: {}", errclass(&e))).and_then(|(cl, _)| drain_async(cl).map_err(|e| errclass(&e))).map(move |r| {
                        drop(rest);
                        r
                    })
                });
                let r = match net::block(f)? {
                    Ok(r) => r,
                    Err(e) => viol!("async Server: {}", e),
                };
                drop(s);
                Ok(r)
            })?
        }
    };
    ensure!(got == want && end == "NoData", "{}: sent {} behind the handshake, received {} (then {})", ways[way], shorts(&want), shorts(&got), end);
    c.ev("socket_connections", 1);
    c.eval(hash(&body) ^ way as u64);
    Ok(())
}
fn drain_async<S>(cl: S) -> Box<dyn Future<Item = (Vec<M>, String), Error = WebSocketError>>
where
    S: futures::Stream<Item = websocket::OwnedMessage, Error = WebSocketError> + 'static,
{
    let v = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let v2 = v.clone();
    Box::new(
        cl.for_each(move |m| {
            v2.borrow_mut().push(M::of(&m));
            Ok(())
        })
        .then(move |r| {
            let end = match r {
                Ok(()) => "NoData".to_string(),
                Err(e) => errclass(&e),
            };
            let ms = v.borrow().clone();
            Ok((ms, end))
        }),
    )
}
pub fn run(x: &Ctx) {
    x.scale(3);
    x.rule("a case lets the peer's handshake be followed directly by the frames of generated messages and offers the bytes under generated or enumerated read boundaries; it compares the messages received after the handshake with those sent; dismantle cases receive some messages (with and without a wait in the middle of a frame), then split the connection, reunite it, or take the stream back and account for every byte left; distinct by bytes, cut points, role and interface");
    x.assume("bytes of fragments already taken by the receiver as complete frames are not expected back from into_stream / into_parts");
    let _ = drive::<futures::future::FutureResult<(), ()>>;
    x.run("boundaries", 10 * x.q(12, 150), boundaries);
    x.run("generated", x.q(24_000, 600_000), generated);
    x.run("long_heads", x.q(1_500, 40_000), long_heads);
    x.run("dismantle", x.q(28_000, 800_000), dismantle);
    x.run("raw", x.q(12_000, 300_000), raw);
    x.run("looked", x.q(3_000, 60_000), looked);
    x.run_t("sockets", x.q(1_200, 15_000), 8, sockets);
    x.need("connections", 50_000);
    x.need("messages_behind_handshakes", 100_000);
    x.need("behind_long_heads", 1_000);
    x.need("dismantled", 10_000);
    x.need("dismantled_after_a_wait", 5_000);
    x.need("upgrades_inspected", 1_000);
    x.need("raw_remainders", 10_000);
    x.need("socket_connections", 300);
}
