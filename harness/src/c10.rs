//! C10: waiting for data never loses or corrupts data.
use crate::core::*;
use crate::exec::{drive, D};
use crate::gen;
use crate::hs;
use crate::net;
use crate::recv::{self, errclass, Ev, Opts, RK};
use crate::stream::*;
use crate::wire::*;
use hyper::buffer::BufReader;
use std::io::{ErrorKind, Write};
use std::time::Duration;
use websocket::receiver::{Reader, Receiver};
use websocket::ws::Receiver as _;
use websocket::{ClientBuilder, WebSocketError};

const KINDS: [ErrorKind; 3] = [ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Interrupted];

fn check(c: &mut Case, rk: RK, role: Role, want: &[M], steps: Vec<Step>, o: &Opts, what: &str) -> Res {
    let planned = steps.iter().filter(|s| matches!(s, Step::Err(_))).count();
    let got = recv::receive(rk, o, steps, End::Block)?;
    let ms = got.msgs();
    ensure!(
        ms == want,
        "{:?}/{:?}: {}: sent {} delivered {} ({})",
        rk,
        role,
        what,
        shorts(want),
        shorts(&ms),
        recv::evs(&got.evs)
    );
    let waits = got.evs.iter().filter(|e| matches!(e, Ev::Wait(_))).count();
    for e in &got.evs {
        ensure!(!matches!(e, Ev::Err(_) | Ev::End), "{:?}/{:?}: {}: waiting turned into {:?}", rk, role, what, e);
    }
    ensure!(waits <= planned, "{:?}/{:?}: {}: {} waits reported for {} that happened", rk, role, what, waits, planned);
    ensure!(got.evs.last() == Some(&Ev::Idle), "{:?}/{:?}: {}: ended with {:?}", rk, role, what, got.evs.last());
    ensure!(got.stream.unread().is_empty(), "{:?}/{:?}: {}: {} bytes never read", rk, role, what, got.stream.unread().len());
    c.ev("messages_delivered", ms.len() as u64);
    c.ev("waits_happened", got.stream.l().waits);
    c.ev("waits_reported", waits as u64);
    Ok(())
}

fn random_waits(c: &mut Case) -> Res {
    let rk = recv::ALL[(c.idx as usize) % recv::ALL.len()];
    let role = if (c.idx as usize / recv::ALL.len()) % 2 == 0 { Role::Client } else { Role::Server };
    let ms = gen::msgs(&mut c.rng, 6, c.idx % 16 == 0);
    let masked = role.recv_masked();
    let (fs, want) = gen::fragmented(&mut c.rng, &ms, masked, 5, 2);
    let data = encode_all(&fs);
    let bounds = gen::bounds_of(&fs);
    let seg = if data.len() < 600 && c.rng.chance(1, 2) { gen::Seg::Bytes } else { *c.rng.pick(&gen::SEGS) };
    let cuts = gen::cuts(&mut c.rng, data.len(), &bounds, seg);
    let steps = gen::at_cuts(&data, &cuts);
    let (n, d) = *c.rng.pick(&[(3, 4), (1, 2), (1, 5), (1, 20), (9, 10)]);
    let kinds: Vec<ErrorKind> = match c.rng.below(4) {
        0 => vec![ErrorKind::WouldBlock],
        1 => vec![ErrorKind::Interrupted],
        2 => vec![ErrorKind::TimedOut],
        _ => KINDS.to_vec(),
    };
    let steps = gen::with_waits(&mut c.rng, steps, &kinds, n, d);
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    o.max_events = steps.len() + 2 * data.len() + 1000;
    let nw = steps.iter().filter(|s| matches!(s, Step::Err(_))).count();
    let what = format!("{} bytes in {} reads with {} waits of {:?}", data.len(), cuts.len() + 1, nw, kinds);
    check(c, rk, role, &want, steps, &o, &what)?;
    c.eval(hash(&data) ^ rk as u64 ^ (nw as u64) << 32);
    c.sample(|| format!("{:?}/{:?} {} {}", rk, role, what, shorts(&want)));
    Ok(())
}

/// A fixed rich stream with one wait (of each kind) after every single byte, for every interface.
fn every_position(c: &mut Case) -> Res {
    let rk = recv::ALL[(c.idx as usize) % recv::ALL.len()];
    let role = if (c.idx as usize / recv::ALL.len()) % 2 == 0 { Role::Client } else { Role::Server };
    let variant = c.idx as usize / recv::ALL.len() / 2;
    let masked = role.recv_masked();
    let k = gen::mask_for(&mut c.rng, masked);
    let mut fs = vec![];
    let mut want = vec![];
    match variant % 3 {
        0 => {
            fs.push(F::new(false, 1, "a\u{e9}".as_bytes().to_vec()));
            fs.push(F::new(true, 9, b"pi".to_vec()));
            want.push(M::Ping(b"pi".to_vec()));
            fs.push(F::new(false, 0, vec![]));
            fs.push(F::new(true, 0, b"zz".to_vec()));
            want.push(M::Text("a\u{e9}zz".into()));
            fs.push(F::new(true, 8, vec![3, 232, b'b']));
            want.push(M::Close(Some((1000, "b".into()))));
            fs.push(F::new(true, 2, vec![]));
            want.push(M::Bin(vec![]));
        }
        1 => {
            fs.push(F::new(true, 2, vec![7; 130]));
            want.push(M::Bin(vec![7; 130]));
            fs.push(F::new(true, 10, vec![1; 125]));
            want.push(M::Pong(vec![1; 125]));
        }
        _ => {
            fs.push(F::new(false, 2, vec![5; 126]));
            fs.push(F::new(true, 8, vec![]));
            want.push(M::Close(None));
            fs.push(F::new(true, 0, vec![6; 3]));
            let mut p = vec![5; 126];
            p.extend([6; 3]);
            want.push(M::Bin(p));
        }
    }
    let fs: Vec<F> = fs.into_iter().map(|f| f.masked(k)).collect();
    let data = encode_all(&fs);
    for kind in KINDS.iter() {
        for at in 0..=data.len() {
            for reps in [1usize, 3] {
                let mut steps = vec![];
                if at > 0 {
                    steps.push(Step::Data(data[..at].to_vec()));
                }
                for _ in 0..reps {
                    steps.push(Step::Err(*kind));
                }
                if at < data.len() {
                    steps.push(Step::Data(data[at..].to_vec()));
                }
                let mut o = Opts::new(role);
                o.variant = c.rng.below(12);
                check(c, rk, role, &want, steps, &o, &format!("{} x {:?} after byte {} of {}", reps, kind, at, hex(&data)))?;
                c.ev("single_wait_positions", 1);
                c.eval(hash(&data) ^ (at as u64) << 20 ^ (*kind as u64) << 50 ^ rk as u64 ^ (reps as u64) << 58);
            }
        }
    }
    Ok(())
}

/// Megabytes on their way while the data keeps stalling.
fn large_waits(c: &mut Case) -> Res {
    let rk = recv::ALL[(c.idx as usize) % recv::ALL.len()];
    let role = if (c.idx as usize / recv::ALL.len()) % 2 == 0 { Role::Client } else { Role::Server };
    let masked = role.recv_masked();
    let total = c.rng.range(1 << 20, if c.idx % 4 == 0 { 9 << 20 } else { 3 << 20 });
    let n = *c.rng.pick(&[1usize, 1, 2, 5, 60]);
    let mut cuts: Vec<usize> = (1..n).map(|_| c.rng.below(total + 1)).collect();
    cuts.push(0);
    cuts.push(total);
    cuts.sort();
    let all = gen::payload(&mut c.rng, total);
    let mut fs = vec![];
    let mut want = vec![];
    for k in 0..n {
        let key = gen::mask_for(&mut c.rng, masked);
        fs.push(F::new(k + 1 == n, if k > 0 { 0 } else { 2 }, all[cuts[k]..cuts[k + 1]].to_vec()).masked(key));
        if k + 1 < n && c.rng.chance(1, 3) {
            let m = M::Ping((k as u32).to_be_bytes().to_vec());
            fs.push(gen::frame_of(&mut c.rng, &m, masked));
            want.push(m);
        }
    }
    want.push(M::Bin(all));
    let m = M::Text("z".into());
    fs.push(gen::frame_of(&mut c.rng, &m, masked));
    want.push(m);
    let data = encode_all(&fs);
    let chunk = *c.rng.pick(&[9_000usize, 65_536, 200_000, 700_000]);
    let steps: Vec<Step> = data.chunks(chunk).map(|d| Step::Data(d.to_vec())).collect();
    let steps = gen::with_waits(&mut c.rng, steps, &KINDS, 1, 2);
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    o.max_events = steps.len() * 4 + data.len() / 256 + 1000;
    check(c, rk, role, &want, steps, &o, &format!("{} bytes in {} fragments and pieces of {}", total, n, chunk))?;
    c.ev("large_messages", 1);
    c.eval(c.idx ^ (total as u64) << 20);
    Ok(())
}

/// Frame-level blocking reads with waits anywhere.
fn frames_wait(c: &mut Case) -> Res {
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let masked = role.recv_masked();
    let ms = gen::msgs(&mut c.rng, 5, c.idx % 8 == 0);
    let (fs, _) = gen::fragmented(&mut c.rng, &ms, masked, 4, 2);
    let data = encode_all(&fs);
    let bounds = gen::bounds_of(&fs);
    let seg = *c.rng.pick(&gen::SEGS);
    let cuts = gen::cuts(&mut c.rng, data.len(), &bounds, seg);
    let steps = gen::with_waits(&mut c.rng, gen::at_cuts(&data, &cuts), &KINDS, 1, 3);
    let planned = steps.len();
    let which = c.idx % 6;
    let o = Opts::new(role);
    let s = Scripted::new(if which >= 4 { recv::with_handshake(role, steps, true) } else { steps }, End::Block);
    let mut got: Vec<(bool, u8, Vec<u8>)> = vec![];
    let what = format!("frame interface {} {:?}: {} frames", which, role, fs.len());
    guard(|| -> Res {
        let mut n = 0usize;
        let mut push = |r: Result<websocket::dataframe::DataFrame, WebSocketError>| -> Result<bool, Fail> {
            n += 1;
            if n > planned + 10_000 {
                return Err(Fail::V(format!("{}: no progress", what)));
            }
            match r {
                Ok(d) => {
                    got.push((d.finished, d.opcode as u8, d.data));
                    Ok(true)
                }
                Err(WebSocketError::IoError(ref e)) if KINDS.contains(&e.kind()) => Ok(!s.l().idle),
                Err(e) => Err(Fail::V(format!("{}: waiting turned into {}", what, errclass(&e)))),
            }
        };
        match which {
            0 => {
                let mut r = Receiver::new(masked);
                let mut st = s.clone();
                while push(r.recv_dataframe(&mut st))? {}
            }
            1 => {
                let mut r = Receiver::new(masked);
                let mut st = s.clone();
                let mut it = r.incoming_dataframes(&mut st);
                while push(it.next().ok_or(Fail::V("iterator ended".into()))?)? {}
            }
            2 => {
                let mut r = Reader { stream: BufReader::new(s.clone()), receiver: Receiver::new(masked) };
                while push(r.recv_dataframe())? {}
            }
            3 => {
                let mut r = Reader { stream: BufReader::new(s.clone()), receiver: Receiver::new(masked) };
                let mut it = r.incoming_dataframes();
                while push(it.next().ok_or(Fail::V("iterator ended".into()))?)? {}
            }
            4 => {
                let mut cl = recv::sync_conn(s.clone(), &o)?;
                while push(cl.recv_dataframe())? {}
            }
            _ => {
                let mut cl = recv::sync_conn(s.clone(), &o)?;
                let mut it = cl.incoming_dataframes();
                while push(it.next().ok_or(Fail::V("iterator ended".into()))?)? {}
            }
        }
        Ok(())
    })?;
    let want: Vec<(bool, u8, Vec<u8>)> = fs.iter().map(|f| (f.fin, f.op, f.payload.clone())).collect();
    ensure!(got == want, "{}: {} frames read, equal: {}", what, got.len(), got == want);
    c.ev("frames_read", got.len() as u64);
    c.eval(hash(&data) ^ which);
    Ok(())
}

/// The asynchronous handshake itself under waits, with messages right behind it.
fn handshake_waits(c: &mut Case) -> Res {
    let role = if c.idx % 2 == 0 { Role::Client } else { Role::Server };
    let masked = role.recv_masked();
    let ms = gen::msgs(&mut c.rng, 4, false);
    let (fs, want) = gen::fragmented(&mut c.rng, &ms, masked, 3, 2);
    let mut data = recv::handshake_bytes(role);
    let hl = data.len();
    data.extend(encode_all(&fs));
    let cuts: Vec<usize> = match c.rng.below(4) {
        0 => (1..data.len()).collect(),
        1 => vec![c.rng.range(1, hl)],
        2 => {
            let a = c.rng.range(1, hl);
            vec![a, hl.min(data.len() - 1).max(a)]
        }
        _ => (1..data.len()).filter(|_| c.rng.chance(1, 6)).collect(),
    };
    let mut cuts: Vec<usize> = cuts.into_iter().filter(|&x| x > 0 && x < data.len()).collect();
    cuts.dedup();
    let mut steps = gen::with_waits(&mut c.rng, gen::at_cuts(&data, &cuts), &[ErrorKind::WouldBlock], 2, 3);
    if c.rng.chance(1, 2) {
        steps.insert(0, Step::Err(ErrorKind::WouldBlock));
    }
    let (wp, fp) = gen::wplan(&mut c.rng, true);
    let s = Scripted::new(steps, End::Block).asy().wplan(wp, fp);
    let ss = [s.clone()];
    let what = format!("async {:?} handshake of {} bytes, {} read boundaries", role, hl, cuts.len());
    let mut got = vec![];
    guard(|| -> Res {
        let mut f = match role {
            Role::Client => {
                let b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(hs::KEY);
                match drive(b.async_connect_on(s.clone()), &ss)? {
                    D::Done((c, _)) => c,
                    D::Err(e) => viol!("{}: failed: {}", what, errclass(&e)),
                    D::Idle => viol!("{}: stalled", what),
                }
            }
            Role::Server => {
                use websocket::server::upgrade::r#async::IntoWs;
                let u = match drive(IntoWs::into_ws(s.clone()), &ss)? {
                    D::Done(u) => u,
                    D::Err(e) => viol!("{}: refused: {}", what, e.3),
                    D::Idle => viol!("{}: stalled", what),
                };
                match drive(u.accept(), &ss)? {
                    D::Done((c, _)) => c,
                    D::Err(e) => viol!("{}: accept failed: {}", what, errclass(&e)),
                    D::Idle => viol!("{}: accept stalled", what),
                }
            }
        };
        use futures::Stream;
        loop {
            match crate::exec::drive_fn(|| f.poll(), &ss)? {
                D::Done(Some(m)) => got.push(M::of(&m)),
                D::Done(None) => viol!("{}: ended", what),
                D::Err(e) => viol!("{}: {}", what, errclass(&e)),
                D::Idle => return Ok(()),
            }
        }
    })?;
    ensure!(got == want, "{}: sent {} delivered {}", what, shorts(&want), shorts(&got));
    c.ev("handshakes_under_waits", 1);
    c.ev("messages_delivered", got.len() as u64);
    c.eval(hash(&data) ^ cuts.len() as u64 ^ (cuts.first().cloned().unwrap_or(0) as u64) << 32);
    Ok(())
}

/// Real sockets: a writer that dribbles and pauses, a reader with a short timeout or in non-blocking mode.
fn socket_waits(c: &mut Case) -> Res {
    let nonblocking = c.idx % 2 == 0;
    let split = c.idx / 2 % 2 == 0;
    let n = c.rng.range(2, 8);
    let ms: Vec<M> = (0..n).map(|_| gen::msg(&mut c.rng, false)).collect();
    let (fs, want) = gen::fragmented(&mut c.rng, &ms, false, 4, 2);
    let data = encode_all(&fs);
    let (l, addr) = net::listener()?;
    let mut r = c.rng.clone();
    let want2 = want.clone();
    let peer = std::thread::spawn(move || -> Result<std::net::TcpStream, String> {
        let (mut s, _) = l.accept().map_err(|e| e.to_string())?;
        net::guard_sock(&s);
        let first = r.below(data.len().max(1));
        net::answer(&mut s, &data[..first])?;
        let mut p = first;
        while p < data.len() {
            let k = match r.below(4) {
                0 => 1,
                1 => r.range(1, 4),
                _ => r.range(1, 300),
            }
            .min(data.len() - p);
            s.write_all(&data[p..p + k]).map_err(|e| e.to_string())?;
            p += k;
            if r.chance(1, 4) {
                std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
            } else {
                std::thread::yield_now();
            }
        }
        Ok(s)
    });
    let what = format!("real socket, {}, {}", if nonblocking { "non-blocking" } else { "read timeout" }, if split { "split" } else { "whole" });
    let got = guard(|| -> Result<(Vec<M>, u64), Fail> {
        let url = format!("ws://{}/", addr);
        let mut cl = ClientBuilder::new(&url)
            .map_err(|e| Fail::H(e.to_string()))?
            .connect_insecure()
            .map_err(|e| Fail::V(format!("{}: connect: {}", what, errclass(&e))))?;
        if nonblocking {
            cl.set_nonblocking(true).map_err(|e| Fail::H(e.to_string()))?;
        } else {
            cl.stream_ref().set_read_timeout(Some(Duration::from_millis(1))).map_err(|e| Fail::H(e.to_string()))?;
        }
        let mut got = vec![];
        let mut waits = 0u64;
        let mut step = |r: Result<websocket::OwnedMessage, WebSocketError>, got: &mut Vec<M>| -> Res {
            match r {
                Ok(m) => got.push(M::of(&m)),
                Err(WebSocketError::IoError(ref e)) if KINDS.contains(&e.kind()) => {
                    waits += 1;
                    if nonblocking {
                        std::thread::yield_now();
                    }
                }
                Err(e) => viol!("{}: after {} of {} messages: {}", what, got.len(), want2.len(), errclass(&e)),
            }
            Ok(())
        };
        if split {
            let (mut r, _w) = cl.split().map_err(|e| Fail::V(format!("{}: split: {}", what, e)))?;
            while got.len() < want2.len() {
                step(r.recv_message(), &mut got)?;
            }
        } else {
            while got.len() < want2.len() {
                step(cl.recv_message(), &mut got)?;
            }
        }
        Ok((got, waits))
    });
    let p = peer.join().map_err(|_| Fail::H("peer panicked".into()))?;
    let (got, waits) = got?;
    p.map_err(Fail::H)?;
    ensure!(got == want, "{}: sent {} delivered {}", what, shorts(&want), shorts(&got));
    c.ev("socket_waits", waits);
    c.ev("messages_delivered", got.len() as u64);
    c.eval(gen::fp(&got) ^ c.idx);
    Ok(())
}

pub fn run(x: &Ctx) {
    x.scale(4);
    x.rule("a case puts would-block, timed-out or interrupted read results between generated chunks of a valid stream (every byte position in turn for fixed streams, anywhere and repeatedly for generated ones), runs one receive interface that is called again after each reported wait, and compares the delivered messages with the sent ones; a deterministic executor polls asynchronous tasks only when they were woken, so a missing wake-up is seen as a stall; distinct by stream bytes, interface and wait placement");
    x.assume("blocking handshakes are not resumed after a wait: it is reported to the caller");
    x.run("every_position", recv::ALL.len() as u64 * 6, every_position);
    x.run("random_waits", x.q(40_000, 2_000_000), random_waits);
    x.run_t("large_waits", 32 * x.q(4, 40), 4, large_waits);
    x.run("frame_reads", x.q(10_000, 400_000), frames_wait);
    x.run("handshake_waits", x.q(6_000, 200_000), handshake_waits);
    x.run("socket_waits", x.q(200, 5_000), socket_waits);
    x.need("waits_happened", 10_000);
    x.need("waits_reported", 1_000);
    x.need("socket_waits", 10);
    x.need("handshakes_under_waits", 100);
}
