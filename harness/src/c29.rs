//! C29: finished connections and attempts leave nothing behind.
use crate::alloc;
use crate::core::*;
use crate::exec::{drive, D};
use crate::gen;
use crate::heads;
use crate::hs;
use crate::net;
use crate::recv::{self, Opts};
use crate::send;
use crate::stream::*;
use crate::wire::*;
use crate::*;
use futures::executor::{self, Notify, NotifyHandle};
use futures::sync::oneshot;
use futures::{Async, Future, Sink, Stream};
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::Arc;
use std::time::{Duration, Instant};
use websocket::ws::dataframe::DataFrame as _;
use websocket::{ClientBuilder, OwnedMessage};

// ------------------------------------------------------------------ measuring
fn entries(dir: &str) -> Result<usize, Fail> {
    Ok(std::fs::read_dir(dir).map_err(|e| Fail::H(format!("{}: {}", dir, e)))?.count())
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Held {
    fds: usize,
    threads: usize,
    bytes: isize,
}
fn held() -> Result<Held, Fail> {
    let (fds, threads) = (entries("/proc/self/fd")?, entries("/proc/self/task")?);
    Ok(Held { fds, threads, bytes: alloc::all() })
}
/// what is held once everything has come to rest (or after a while, at least)
fn rested(at_most: Option<Held>) -> Result<Held, Fail> {
    let t = Instant::now();
    let mut last = held()?;
    let mut same = 0;
    loop {
        std::thread::sleep(Duration::from_millis(2));
        let h = held()?;
        same = if h == last { same + 1 } else { 0 };
        last = h;
        let fine = at_most.map(|m| h.fds <= m.fds && h.threads <= m.threads && h.bytes <= m.bytes).unwrap_or(true);
        if (fine && same >= 2) || t.elapsed() > Duration::from_millis(if at_most.is_some() { 3000 } else { 1000 }) {
            return Ok(h);
        }
    }
}
/// `once` says whether the case went as it should (what fails elsewhere is judged there)
fn steady_thread(c: &mut Case, what: &str, mut once: impl FnMut() -> bool) -> Res {
    for _ in 0..3 {
        if !once() {
            c.ev("judged_elsewhere", 1);
            return Ok(());
        }
    }
    let mut growth = vec![];
    c.ev("repetitions", 0);
    for n in [5, 16, 16, 32] {
        let base = alloc::mine();
        for _ in 0..n {
            if !once() {
                c.ev("judged_elsewhere", 1);
                return Ok(());
            }
        }
        let g = alloc::mine() - base;
        c.ev("repetitions", n);
        if g <= 0 {
            c.ev("cases_repeated", 1);
            return Ok(());
        }
        growth.push((n, g));
    }
    viol!("{}: memory stays behind: (repetitions, bytes) {:?}", what, growth)
}
fn steady_process(c: &mut Case, what: &str, mut once: impl FnMut() -> bool) -> Res {
    for _ in 0..3 {
        if !once() {
            c.ev("judged_elsewhere", 1);
            return Ok(());
        }
    }
    let mut seen = vec![];
    c.ev("process_repetitions", 0);
    for n in [4, 8, 12, 12] {
        let base = rested(None)?;
        for _ in 0..n {
            if !once() {
                c.ev("judged_elsewhere", 1);
                return Ok(());
            }
        }
        let h = rested(Some(Held { bytes: base.bytes + 8 * n as isize - 1, ..base }))?;
        c.ev("process_repetitions", n);
        if std::env::var("WSMON_TRACE").is_ok() && h != base {
            eprintln!("{}: {} times: {:?} -> {:?}", what, n, base, h);
        }
        if h.fds <= base.fds && h.threads <= base.threads && h.bytes - base.bytes < 8 * n as isize {
            c.ev("process_cases_repeated", 1);
            return Ok(());
        }
        seen.push((n, base, h));
    }
    // the same resource every time
    let all = |f: &dyn Fn(&Held, &Held, isize) -> bool| seen.iter().all(|(n, a, b)| f(a, b, *n as isize));
    let mut which = vec![];
    if all(&|a, b, _| b.fds > a.fds) {
        which.push("descriptors")
    }
    if all(&|a, b, _| b.threads > a.threads) {
        which.push("threads")
    }
    if all(&|a, b, n| b.bytes - a.bytes >= 8 * n) {
        which.push("memory")
    }
    if which.is_empty() {
        c.ev("unsteady", 1);
        return Ok(());
    }
    viol!("{}: {} stay behind: (repetitions, before, after) {:?}", what, which.join(" and "), seen)
}

/// Called in place of running a section of another monitor.
pub fn repeat_section(x: &Ctx, l: &Leak, section: &str, n: u64, f: &(dyn Fn(&mut Case) -> Res + Sync)) {
    if l.skip.iter().any(|s| section.contains(s)) || n == 0 {
        return;
    }
    let process = l.process.iter().any(|s| section.starts_with(s));
    let per = if process { (l.per / 20).max(if x.tier == Tier::Quick { 1 } else { 4 }) } else { l.per }.min(n);
    let stride = n / per;
    x.run_plain(&format!("{}/{}", l.module, section), per, if process { 1 } else { x.threads }, |c| {
        let idx = c.idx * stride + c.rng.u64() % stride;
        let what = format!("{} case {} of {}", l.module, idx, section);
        c.note(what.clone());
        let once = || {
            let mut s = Case::sub(x, section, idx);
            guard(|| f(&mut s)).is_ok()
        };
        if process {
            steady_process(c, &what, once)?
        } else {
            steady_thread(c, &what, once)?
        }
        c.eval(hash_s(&what));
        c.sample(|| what.clone());
        Ok(())
    });
}

// ------------------------------------------------------------------ given up half way
struct Nobody;
impl Notify for Nobody {
    fn notify(&self, _: usize) {}
}
/// poll a few times, waking nobody, and drop it whatever it says
fn give_up<F: Future>(f: F, polls: usize) -> bool {
    let nh = NotifyHandle::from(Arc::new(Nobody));
    let mut sp = executor::spawn(f);
    for _ in 0..polls {
        match sp.poll_future_notify(&nh, 0) {
            Ok(Async::NotReady) => {}
            _ => return true,
        }
    }
    false
}
fn abandoned(c: &mut Case) -> Res {
    let way = c.idx % 8;
    let role = if c.idx / 8 % 2 == 0 { Role::Client } else { Role::Server };
    let seed = c.rng.u64();
    let what = format!("abandoning way {} as {:?}", way, role);
    c.note(what.clone());
    let mut gave_up = 0;
    let r = steady_thread(c, &what, || {
        let mut r = Rng::new(seed);
        let go = || -> Result<bool, Fail> {
            let polls = r.range(0, 12);
            let (wp, fp) = gen::wplan(&mut r, true);
            let o = Opts::new(role);
            let head = recv::handshake_bytes(role);
            let k = r.below(head.len());
            let mut steps = vec![];
            for part in head[..k].chunks(r.range(1, 60)) {
                steps.push(Step::Data(part.to_vec()));
                steps.push(Step::Err(std::io::ErrorKind::WouldBlock));
            }
            match way {
                // a handshake that has not been answered or asked yet
                0 | 1 => {
                    let s = Scripted::new(steps, End::Block).asy().wplan(wp, fp);
                    match role {
                        Role::Client => {
                            let b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.add_protocol("a").key(hs::KEY);
                            Ok(!give_up(b.async_connect_on(s), polls))
                        }
                        Role::Server => {
                            use websocket::server::upgrade::r#async::IntoWs;
                            Ok(!give_up(IntoWs::into_ws(s), polls))
                        }
                    }
                }
                // an upgrade that is looked at, then dropped, or its acceptance or refusal given up
                2 | 3 => {
                    use websocket::server::upgrade::r#async::IntoWs;
                    let s = Scripted::new(vec![Step::Data(hs::request())], End::Block).asy();
                    let u = match drive(IntoWs::into_ws(s.clone()), &[s.clone()])? {
                        D::Done(u) => u,
                        _ => return Ok(false),
                    };
                    {
                        let mut l = s.l();
                        l.wplan = vec![W::Accept(r.range(1, 20)), W::Err(std::io::ErrorKind::WouldBlock)];
                    }
                    match r.below(4) {
                        0 => drop(u),
                        1 => u.drop(),
                        2 => return Ok(!give_up(u.accept(), polls)),
                        _ => return Ok(!give_up(u.reject(), polls)),
                    }
                    Ok(true)
                }
                // a connection with a message half received, something half sent, whole or split
                4..=6 => {
                    let s = Scripted::new(recv::with_handshake(role, vec![], false), End::Block);
                    let conn = recv::async_conn(s.clone(), &o)?;
                    let mut f = F::new(false, 2, r.bytes(40));
                    f.mask = gen::mask_for(&mut r, role.recv_masked());
                    s.push(Step::Data(f.encode()));
                    let n = r.range(1, 4000);
                    let g = F::new(true, 0, r.bytes(n)).masked(gen::mask_for(&mut r, role.recv_masked()));
                    let e = g.encode();
                    let k = r.below(e.len());
                    s.push(Step::Data(e[..k].to_vec()));
                    s.l().wplan = vec![W::Accept(r.range(1, 2000)), W::Err(std::io::ErrorKind::WouldBlock)];
                    let n = r.range(0, 30_000);
                    let m = OwnedMessage::Binary(r.bytes(n));
                    if way == 4 {
                        let mut conn = conn;
                        let mut m = Some(m);
                        let mut left = polls;
                        return Ok(!give_up(
                            futures::future::poll_fn(move || -> futures::Poll<(), ()> {
                                if let Some(x) = m.take() {
                                    let _ = conn.start_send(x);
                                }
                                let _ = conn.poll();
                                let _ = conn.poll_complete();
                                left = left.saturating_sub(1);
                                if left == 0 {
                                    Ok(Async::Ready(()))
                                } else {
                                    Ok(Async::NotReady)
                                }
                            }),
                            polls + 2,
                        ));
                    }
                    let (sink, stream) = conn.split();
                    if way == 5 {
                        let a = give_up(sink.send(m), polls);
                        let b = give_up(stream.into_future(), polls);
                        Ok(!a && !b)
                    } else {
                        // one half waits while the other is gone
                        drop(sink);
                        Ok(!give_up(stream.for_each(|_| Ok(())), polls))
                    }
                }
                // blocking: everything dropped with bytes read ahead and a frame half read
                _ => {
                    let ms = gen::msgs(&mut r, 4, false);
                    let (fs, _) = gen::fragmented(&mut r, &ms, role.recv_masked(), 4, 4);
                    let mut data = encode_all(&fs);
                    let k = r.below(data.len() + 1);
                    data.truncate(k);
                    let s = Scripted::new(recv::with_handshake(role, vec![Step::Data(data)], true), End::Block);
                    let n = r.below(4);
                    if r.chance(1, 2) {
                        let mut cl = recv::sync_conn(s, &o)?;
                        for _ in 0..n {
                            let _ = cl.recv_message();
                        }
                        match r.below(3) {
                            0 => drop(cl),
                            1 => drop(cl.into_stream()),
                            _ => {
                                if let Ok((mut rd, wr)) = cl.split() {
                                    drop(wr);
                                    let _ = rd.recv_message();
                                }
                            }
                        }
                    } else {
                        let mut cl = recv::sync_conn_pair(s, &o)?;
                        for df in cl.incoming_dataframes().take(n) {
                            let _ = df.map(|d| d.size());
                        }
                    }
                    Ok(true)
                }
            }
        };
        match guard(go) {
            Ok(b) => {
                gave_up += b as u64;
                true
            }
            Err(_) => false,
        }
    });
    c.ev("given_up", gave_up);
    c.seen("ways_of_giving_up", way * 2 + (role == Role::Server) as u64);
    c.eval(seed);
    r
}

// ------------------------------------------------------------------ connections with a long history
/// the most that is held at the ends of rounds must not go on rising
fn level(c: &mut Case, what: &str, mut round: impl FnMut() -> Result<bool, Fail>) -> Res {
    let mut most = vec![];
    for n in [30u64, 60, 120, 240, 480] {
        let mut top = isize::MIN;
        for _ in 0..n {
            match guard(&mut round) {
                Ok(true) => {}
                _ => {
                    c.ev("judged_elsewhere", 1);
                    return Ok(());
                }
            }
            top = top.max(alloc::mine());
        }
        c.ev("rounds", n);
        let rose = most.last().map(|m| top > *m).unwrap_or(true);
        most.push(top);
        // (the first window warms up)
        if most.len() >= 2 && !rose {
            c.ev("long_histories", 1);
            return Ok(());
        }
    }
    let b = most[0];
    viol!("{}: what a connection holds rises with what has passed through it: {:?}", what, most.iter().map(|m| m - b).collect::<Vec<_>>())
}
fn long_lived(c: &mut Case) -> Res {
    let role = if c.idx % 2 == 0 { Role::Client } else { Role::Server };
    let way = c.idx / 2 % 5;
    let o = Opts::new(role);
    let masked = role.recv_masked();
    let big = c.rng.chance(1, 6);
    let mut ms = gen::msgs(&mut c.rng, 5, big);
    ms.push(gen::msg(&mut c.rng, false));
    ms.retain(|m| !matches!(m, M::Close(_)));
    let inter = c.rng.below(5);
    let (fs, want) = gen::fragmented(&mut c.rng, &ms, masked, 6, inter);
    let data = encode_all(&fs);
    let waits = c.rng.chance(1, 2);
    let (mut steps, _) = gen::segment(&mut c.rng, &data, &gen::bounds_of(&fs));
    if waits {
        steps = gen::with_waits(&mut c.rng, steps, &[std::io::ErrorKind::WouldBlock], 1, 3);
    }
    let out: Vec<OwnedMessage> = ms.iter().map(|m| m.owned()).collect();
    let what = format!("{} as {:?}, every round {} there and {} back", ["messages", "frames", "split", "async", "async split"][way as usize], role, shorts(&want), out.len());
    c.note(what.clone());
    let s = Scripted::new(recv::with_handshake(role, vec![], false), End::Block);
    let feed = |s: &Scripted| {
        s.l().out.clear();
        for st in &steps {
            s.push(st.clone());
        }
    };
    let (nw, nf) = (want.len(), fs.len());
    match way {
        0 | 1 => {
            let mut cl = recv::sync_conn(s.clone(), &o)?;
            level(c, &what, || {
                feed(&s);
                let mut got = 0;
                let mut tries = 0;
                while got < if way == 0 { nw } else { nf } {
                    let r = if way == 0 { cl.recv_message().map(|_| ()) } else { cl.recv_dataframe().map(|_| ()) };
                    match r {
                        Ok(()) => got += 1,
                        Err(_) => tries += 1,
                    }
                    if tries > 4 * steps.len() + 10 {
                        return Ok(false);
                    }
                }
                for m in &out {
                    if cl.send_message(m).is_err() {
                        return Ok(false);
                    }
                }
                Ok(true)
            })?
        }
        2 => {
            let (mut rd, mut wr) = recv::sync_conn(s.clone(), &o)?.split().map_err(|e| Fail::H(e.to_string()))?;
            level(c, &what, || {
                feed(&s);
                let mut got = 0;
                let mut tries = 0;
                while got < nw {
                    match rd.recv_message() {
                        Ok(_) => got += 1,
                        Err(_) => tries += 1,
                    }
                    if tries > 4 * steps.len() + 10 {
                        return Ok(false);
                    }
                }
                Ok(out.iter().all(|m| wr.send_message(m).is_ok()))
            })?
        }
        3 => {
            let mut cl = Some(recv::async_conn(s.clone(), &o)?);
            level(c, &what, || {
                feed(&s);
                for _ in 0..nw {
                    match drive(cl.take().unwrap().into_future(), &[s.clone()])? {
                        D::Done((Some(_), k)) => cl = Some(k),
                        _ => return Ok(false),
                    }
                }
                for m in &out {
                    match drive(cl.take().unwrap().send(m.clone()), &[s.clone()])? {
                        D::Done(k) => cl = Some(k),
                        _ => return Ok(false),
                    }
                }
                Ok(true)
            })?
        }
        _ => {
            let (sink, stream) = recv::async_conn(s.clone(), &o)?.split();
            let mut h = (Some(sink), Some(stream));
            level(c, &what, || {
                feed(&s);
                for _ in 0..nw {
                    match drive(h.1.take().unwrap().into_future(), &[s.clone()])? {
                        D::Done((Some(_), k)) => h.1 = Some(k),
                        _ => return Ok(false),
                    }
                }
                let it = futures::stream::iter_ok::<_, websocket::WebSocketError>(out.clone());
                match drive(h.0.take().unwrap().send_all(it), &[s.clone()])? {
                    D::Done((k, _)) => h.0 = Some(k),
                    _ => return Ok(false),
                }
                Ok(true)
            })?
        }
    }
    c.seen("long_lived_kinds", way * 2 + c.idx % 2);
    c.eval(hash(&data) ^ way);
    c.sample(|| what.clone());
    Ok(())
}

// ------------------------------------------------------------------ servers with a long history
#[derive(Clone, Debug)]
enum Peer {
    /// handshake, so many messages echoed, then a close frame
    Good(usize),
    /// the same, ended without a word
    Gone(usize),
    /// these bytes, then the end
    Bytes(Vec<u8>),
    /// these bytes, reset
    Reset(Vec<u8>),
}
fn visit(addr: SocketAddr, p: &Peer) -> Result<(), Fail> {
    let mut s = net::dial(addr)?;
    net::guard_sock(&s);
    let io = |e: std::io::Error| Fail::H(format!("peer: {}", e));
    let mut b = [0u8; 4096];
    match p {
        Peer::Good(n) | Peer::Gone(n) => {
            s.write_all(&hs::request()).map_err(io)?;
            net::read_head(&mut s).map_err(Fail::H)?;
            for i in 0..*n {
                let f = F::new(true, 1, format!("message {}", i).into_bytes()).masked(Some([1, 2, 3, i as u8]));
                s.write_all(&f.encode()).map_err(io)?;
                let want = F::new(true, 1, f.payload.clone()).encode();
                let mut v = vec![0; want.len()];
                s.read_exact(&mut v).map_err(io)?;
                if v != want {
                    return Err(Fail::H("no echo".into()));
                }
            }
            if let Peer::Good(_) = p {
                s.write_all(&F::new(true, 8, vec![3, 232]).masked(Some([9, 9, 9, 9])).encode()).map_err(io)?;
                while !matches!(s.read(&mut b), Ok(0) | Err(_)) {}
            }
        }
        Peer::Bytes(v) => {
            let _ = s.write_all(v);
            let _ = s.shutdown(Shutdown::Write);
            while !matches!(s.read(&mut b), Ok(0) | Err(_)) {}
        }
        Peer::Reset(v) => {
            let _ = s.write_all(v);
            use std::os::unix::io::AsRawFd;
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32) };
        }
    }
    Ok(())
}
fn server_history(c: &mut Case) -> Res {
    let asy = c.idx % 2 == 1;
    let mut peers = vec![];
    for _ in 0..c.rng.range(3, 8) {
        peers.push(match c.rng.below(6) {
            0 | 1 => Peer::Good(c.rng.below(4)),
            2 => Peer::Gone(c.rng.below(4)),
            3 => {
                let q = crate::srv::request(&mut c.rng, 1, false);
                Peer::Bytes(q.bytes())
            }
            4 => {
                let mut v = heads::good_request(&mut c.rng, &hs::KEY).encode();
                let k = c.rng.below(v.len());
                v.truncate(k);
                Peer::Bytes(v)
            }
            _ => {
                let n = c.rng.below(60);
                Peer::Reset(c.rng.bytes(n))
            }
        })
    }
    let what = format!("{} server visited by {}", if asy { "an asynchronous" } else { "a blocking" }, trunc(&format!("{:?}", peers), 600));
    c.note(what.clone());
    let io = |e: std::io::Error| Fail::H(format!("server: {}", e));
    // the server runs until told to stop
    let (addr, stop, th): (SocketAddr, Box<dyn FnOnce()>, std::thread::JoinHandle<Result<(), Fail>>) = if asy {
        let (tx, rx) = oneshot::channel::<()>();
        let (atx, arx) = std::sync::mpsc::channel();
        let th = std::thread::spawn(move || {
            let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(io)?;
            let s = websocket::r#async::Server::bind(net::any().as_str(), &Default::default()).map_err(io)?;
            let _ = atx.send(s.local_addr());
            let f = s.incoming().then(Ok::<_, ()>).for_each(|r| {
                if let Ok((u, _)) = r {
                    let f = u
                        .accept()
                        .and_then(|(conn, _)| {
                            let (sink, stream) = conn.split();
                            stream.take_while(|m| Ok(!m.is_close())).forward(sink)
                        })
                        .then(|_| Ok(()));
                    tokio::runtime::current_thread::spawn(f);
                }
                Ok(())
            });
            let _ = rt.block_on(f.select2(rx));
            Ok(())
        });
        let addr = arx.recv().map_err(|e| Fail::H(e.to_string()))?.map_err(io)?;
        (addr, Box::new(move || drop(tx.send(()))), th)
    } else {
        let mut s = websocket::sync::Server::bind(net::any().as_str()).map_err(io)?;
        let addr = s.local_addr().map_err(io)?;
        let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let d = done.clone();
        let th = std::thread::spawn(move || {
            loop {
                let r = s.accept();
                if d.load(std::sync::atomic::Ordering::SeqCst) {
                    return Ok(());
                }
                if let Ok(u) = r {
                    if let Ok(mut cl) = u.accept() {
                        while let Ok(m) = cl.recv_message() {
                            if m.is_close() || cl.send_message(&m).is_err() {
                                break;
                            }
                        }
                    }
                }
            }
        });
        let stop = move || {
            done.store(true, std::sync::atomic::Ordering::SeqCst);
            let _ = TcpStream::connect(addr);
        };
        (addr, Box::new(stop), th)
    };
    let mut trouble = None;
    let r = steady_process(c, &what, || {
        for p in &peers {
            if let Err(e) = visit(addr, p) {
                trouble = Some(e);
                return false;
            }
        }
        true
    });
    stop();
    let _ = th.join();
    c.ev("peers_per_round", peers.len() as u64);
    c.ev(if asy { "async_servers" } else { "blocking_servers" }, 1);
    c.eval(hash_s(&what));
    c.sample(|| what.clone());
    let _ = trouble;
    r
}

/// megabytes in one message, whole, in pieces, refused or cut off, received and sent
fn large(c: &mut Case) -> Res {
    let rk = recv::ALL[(c.idx / 2 % 16) as usize];
    let role = if c.idx % 2 == 0 { Role::Client } else { Role::Server };
    let n = *c.rng.pick(&[1_100_000usize, 1_600_000, 2_200_000, 4_200_000]);
    if c.idx / 32 % 4 == 3 {
        let sk = *c.rng.pick(&send::ALL);
        let form = *c.rng.pick(&send::FORMS);
        let ms = [M::Bin(vec![7; n]), M::Text("t".repeat(n / 2))];
        let what = format!("sending {} and {} bytes through {:?}/{:?}/{:?}", n, n / 2, sk, form, role);
        steady_thread(c, &what, || matches!(send::send(sk, form, role, &ms, vec![], vec![], 0), Ok(s) if s.results.iter().all(|r| r.0.is_ok())))?;
        c.ev("large_messages_sent", 1);
        c.eval(hash_s(&what));
        return Ok(());
    }
    let masked = role.recv_masked();
    let text = c.rng.chance(1, 2);
    let parts = if c.rng.chance(1, 2) { 1 } else { c.rng.range(2, 5) };
    // 0, 1: delivered; 2: not UTF-8; 3: above the limit; 4: cut off
    let fate = c.rng.below(5);
    let mut data = vec![];
    for i in 0..parts {
        let mut p = vec![b'a' + i as u8; n / parts];
        if fate == 2 && i + 1 == parts {
            *p.last_mut().unwrap() = 0xff;
        }
        let k = gen::mask_for(&mut c.rng, masked);
        data.extend(F::new(i + 1 == parts, if i > 0 { 0 } else if text || fate == 2 { 1 } else { 2 }, p).masked(k).encode());
    }
    if fate == 4 {
        data.truncate(data.len() - c.rng.range(1, 1000));
    }
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    if fate == 3 {
        o.limits = Some(if parts > 1 { (1 << 30, 1_000_000) } else { (1_000_000, 1 << 30) });
    }
    let what = format!("{:?}/{:?}: {} bytes in {} frames, fate {}", rk, role, n, parts, fate);
    let steps: Vec<Step> = data.chunks(700_000).map(|d| Step::Data(d.to_vec())).collect();
    let want = (fate < 2) as usize;
    steady_thread(c, &what, || matches!(recv::receive(rk, &o, steps.clone(), End::Eof), Ok(g) if g.msgs().len() == want || (want == 0 && g.last_bad())))?;
    c.ev("large_messages", 1);
    c.eval(hash_s(&what));
    c.sample(|| what);
    Ok(())
}
pub fn run(x: &Ctx) {
    alloc::watch_all();
    let set = |module: &'static str, per: u64, skip: &'static [&'static str], process: &'static [&'static str]| {
        *x.leak.lock().unwrap() = Some(Leak { module, per: x.q(per, per * 12), skip, process });
    };
    set("c01", 150, &["many", "huge"], &[]);
    c01::run(x);
    set("c02", 100, &["huge"], &[]);
    c02::run(x);
    set("c04", 150, &["many", "huge"], &[]);
    c04::run(x);
    set("c06", 60, &["large", "exhaustive"], &[]);
    c06::run(x);
    set("c05", 200, &["headers"], &[]);
    c05::run(x);
    set("c07", 60, &[], &[]);
    c07::run(x);
    set("c08", 150, &["default_", "fragment_count", "connect_paths", "dribble"], &[]);
    c08::run(x);
    set("c09", 200, &["proportion", "endless", "big"], &[]);
    c09::run(x);
    set("c10", 150, &["every_position", "large_waits"], &["socket_waits"]);
    c10::run(x);
    set("c11", 80, &[], &[]);
    c11::run(x);
    set("c12", 60, &[], &[]);
    c12::run(x);
    set("c13", 150, &["incomplete", "validate_values"], &["sockets"]);
    c13::run(x);
    set("c14", 100, &[], &["sockets"]);
    c14::run(x);
    set("c15", 150, &[], &["refused_sockets", "rejected_sockets"]);
    c15::run(x);
    set("c17", 200, &["codes", "cut"], &["attempts"]);
    c17::run(x);
    set("c18", 200, &["boundaries"], &["sockets"]);
    c18::run(x);
    set("c19", 100, &["names"], &[]);
    c19::run(x);
    set("c20", 100, &[], &["connect", "given_stream"]);
    c20::run(x);
    set("c21", 40, &["marathon_", "long_", "stalled_", "AsyncPool"], &["Sync", "Async"]);
    c21::run(x);
    set("c22", 20, &["duplex_big", "AsyncTasks"], &["duplex", "shutdown", "unsplit"]);
    c22::run(x);
    set("c23", 100, &[], &[]);
    c23::run(x);
    set("c25", 150, &[], &["listeners", "sockets"]);
    c25::run(x);
    set("c26", 150, &[], &[]);
    c26::run(x);
    set("c27", 200, &[], &["connections", "upgrades", "listeners"]);
    c27::run(x);
    set("c28", 150, &[], &["refused"]);
    c28::run(x);
    *x.leak.lock().unwrap() = None;
    x.rule("a case repeats, dozens of times, one case of another monitor (sending, receiving, handshakes of every outcome, faults, splitting, servers with good, bad and vanishing peers, TLS), a connection or handshake given up half way, a round of traffic over one long-lived connection or a set of peers visiting one long-lived server, and compares the live heap memory, file descriptors and threads before and after, once everything obtained was dropped; a steady increase over several measurements is a violation; distinct by the case repeated");
    x.assume("memory allocated by OpenSSL itself is not counted");
    x.run("abandoned", x.q(1_600, 40_000), abandoned);
    x.run("long_lived", x.q(300, 6_000), long_lived);
    x.run("large", x.q(160, 2_000), large);
    x.need("large_messages", 100);
    x.need("large_messages_sent", 20);
    x.run_t("server_history", x.q(16, 240), 1, server_history);
    x.need("cases_repeated", 1_000);
    x.need("process_cases_repeated", 60);
    x.need("given_up", 1_000);
    x.need("long_histories", 200);
    for n in ["async_servers", "blocking_servers"] {
        x.need(n, 4);
    }
}
