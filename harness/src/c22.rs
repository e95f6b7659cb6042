//! C22: split connections work full duplex and close cleanly.
use crate::c20::{connector, identity, leaf_for, World};
use crate::core::*;
use crate::net;
use crate::wire::{self, M};
use futures::{Future, Sink, Stream as _};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use tokio_io::AsyncRead as _;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::r#async::MessageCodec;
use websocket::receiver::Reader;
use websocket::sender::Writer;
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::IntoWs as SyncIntoWs;
use websocket::stream::sync::{NetworkStream, ReadWritePair};
use websocket::sync::Client;
use websocket::ws::{Receiver as _, Sender as _};
use websocket::{ClientBuilder, Message, OwnedMessage};
use wire::Role;

// ------------------------------------------------------------------ what is sent
#[derive(Clone, Debug)]
struct Item {
    /// frames to send one by one; empty = the message at once
    frames: Vec<(bool, u8, Vec<u8>)>,
    /// what it delivers, in order
    gives: Vec<M>,
}
fn numbered(r: &mut Rng, dir: u8, i: usize, len: usize, text: bool) -> Vec<u8> {
    let mut v = format!("{}{:06}:", dir as char, i).into_bytes();
    let extra = len.saturating_sub(v.len());
    if text {
        let s = r.below(26);
        v.extend((0..extra).map(|k| b'a' + ((k * 7 + s) % 26) as u8));
    } else {
        let b = r.bytes(1)[0];
        v.extend((0..extra).map(|k| (k as u8).wrapping_mul(31) ^ b));
    }
    v
}
fn len(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 20 } else { 12 }) {
        0..=6 => r.below(40),
        7..=8 => *r.pick(&[125usize, 126, 127, 128]),
        9..=11 => r.below(3000),
        12..=16 => r.below(20_000),
        17 => *r.pick(&[65_535usize, 65_536, 65_537, 32_768]),
        18 => r.below(120_000),
        _ => r.below(700_000),
    }
}
fn item(r: &mut Rng, dir: u8, i: usize, big: bool) -> Item {
    let n = len(r, big);
    let ctl = |r: &mut Rng| {
        let l = r.range(8, 125);
        let p = numbered(r, dir, i, l, false);
        if r.chance(1, 2) {
            M::Ping(p)
        } else {
            M::Pong(p)
        }
    };
    match r.below(10) {
        0..=3 => {
            let s = String::from_utf8(numbered(r, dir, i, n, true)).unwrap();
            Item { frames: vec![], gives: vec![M::Text(s)] }
        }
        4..=6 => Item { frames: vec![], gives: vec![M::Bin(numbered(r, dir, i, n, false))] },
        7 => Item { frames: vec![], gives: vec![ctl(r)] },
        _ => {
            let text = r.chance(1, 2);
            let p = numbered(r, dir, i, n, text);
            let mut frames = vec![];
            let mut gives = vec![];
            let k = r.range(1, 5);
            let mut pos = 0;
            for f in 0..k {
                let e = if f + 1 == k { p.len() } else { r.range(pos, p.len()) };
                frames.push((f + 1 == k, if f > 0 { 0 } else if text { 1 } else { 2 }, p[pos..e].to_vec()));
                pos = e;
                if f + 1 < k && r.chance(1, 4) {
                    let c = ctl(r);
                    frames.push((true, c.op(), c.payload()));
                    gives.push(c);
                }
            }
            gives.push(if text { M::Text(String::from_utf8(p).unwrap()) } else { M::Bin(p) });
            Item { frames, gives }
        }
    }
}
fn items(r: &mut Rng, dir: u8, n: usize, big: bool) -> Vec<Item> {
    (0..n).map(|i| item(r, dir, i, big)).collect()
}
fn gives(v: &[Item]) -> Vec<M> {
    v.iter().flat_map(|i| i.gives.clone()).collect()
}

// ------------------------------------------------------------------ ends
enum Cmd<'a> {
    Item(&'a Item),
    Fin,
}
type RecvFn = Box<dyn FnMut() -> Result<M, String> + Send>;
type SendFn = Box<dyn FnMut(Cmd) -> Result<(), String> + Send>;
struct End {
    recv: RecvFn,
    send: SendFn,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Tcp,
    PairClone,
    PairTwo,
    PairBoxed,
    Unix,
    AsyncWait,
    AsyncTasks,
    AsyncHalves,
}
const KINDS: [Kind; 8] = [Kind::Tcp, Kind::PairClone, Kind::PairTwo, Kind::PairBoxed, Kind::Unix, Kind::AsyncWait, Kind::AsyncTasks, Kind::AsyncHalves];
impl Kind {
    fn transport(self) -> u8 {
        match self {
            Kind::PairTwo => 1,
            Kind::Unix => 2,
            _ => 0,
        }
    }
    fn asy(self) -> bool {
        matches!(self, Kind::AsyncWait | Kind::AsyncTasks | Kind::AsyncHalves)
    }
}
/// frames one by one put together by the harness
#[derive(Default)]
struct Join {
    op: u8,
    buf: Vec<u8>,
}
impl Join {
    fn add(&mut self, fin: bool, op: u8, data: Vec<u8>) -> Result<Option<M>, String> {
        if op >= 8 {
            return M::build(op, &data).map(Some).ok_or_else(|| "bad control".into());
        }
        if op != 0 {
            if self.op != 0 {
                return Err("a new message inside a fragmented one".into());
            }
            self.op = op;
        } else if self.op == 0 {
            return Err("a continuation of nothing".into());
        }
        self.buf.extend_from_slice(&data);
        if !fin {
            return Ok(None);
        }
        let o = std::mem::replace(&mut self.op, 0);
        let b = std::mem::take(&mut self.buf);
        M::build(o, &b).map(Some).ok_or_else(|| "not a message".into())
    }
}
fn reader_fn<R: Read + Send + 'static>(mut r: Reader<R>, mode: usize) -> RecvFn {
    let mut j = Join::default();
    Box::new(move || {
        let e = |e: websocket::WebSocketError| format!("{:?}", e);
        match mode {
            0 => r.recv_message().map(|m| M::of(&m)).map_err(e),
            1 => match r.incoming_messages().next() {
                Some(m) => m.map(|m| M::of(&m)).map_err(e),
                None => Err("end of the iterator".into()),
            },
            2 => r.receiver.recv_message(&mut r.stream).map(|m| M::of(&m)).map_err(e),
            m => loop {
                let d = if m == 3 {
                    r.recv_dataframe().map_err(e)?
                } else {
                    r.incoming_dataframes().next().ok_or("end of the iterator")?.map_err(e)?
                };
                if let Some(m) = j.add(d.finished, d.opcode as u8, d.data).map_err(|s| format!("PROTOCOL {}", s))? {
                    return Ok(m);
                }
            },
        }
    })
}
fn frame(f: &(bool, u8, Vec<u8>)) -> DataFrame {
    DataFrame::new(f.0, Opcode::new(f.1).expect("opcode"), f.2.clone())
}
fn write_item<W: Write>(w: &mut Writer<W>, it: &Item, mode: usize) -> Result<(), String> {
    let e = |e: websocket::WebSocketError| format!("{:?}", e);
    if !it.frames.is_empty() {
        for f in &it.frames {
            match mode % 2 {
                0 => w.send_dataframe(&frame(f)).map_err(e)?,
                _ => w.sender.send_dataframe(&mut w.stream, &frame(f)).map_err(e)?,
            }
        }
        return Ok(());
    }
    let m = it.gives[0].owned();
    match mode {
        0 => w.send_message(&m).map_err(e),
        1 => w.sender.send_message(&mut w.stream, &m).map_err(e),
        _ => w.send_message(&Message::from(m)).map_err(e),
    }
}
fn writer_fn<W: Write + Send + 'static>(mut w: Writer<W>, mode: usize, mut fin: Box<dyn FnMut(&Writer<W>) -> Result<(), String> + Send>) -> SendFn {
    Box::new(move |c| match c {
        Cmd::Item(it) => write_item(&mut w, it, mode),
        Cmd::Fin => fin(&w),
    })
}
fn sync_client<S: websocket_base::stream::Stream>(s: S, role: Role, handshake: bool) -> Result<Client<S>, String> {
    if !handshake {
        let c = role == Role::Client;
        return Ok(Client::unchecked(BufReader::new(s), Headers::new(), c, !c));
    }
    match role {
        Role::Client => ClientBuilder::new("ws://h/").unwrap().connect_on(s).map_err(|e| format!("connect_on: {:?}", e)),
        Role::Server => {
            let u = SyncIntoWs::into_ws(s).map_err(|e| format!("into_ws: {:?}", e.3))?;
            u.accept().map_err(|e| format!("accept: {:?}", e.1))
        }
    }
}
fn async_client<S>(s: S, role: Role, handshake: bool) -> Result<websocket::r#async::Client<S>, String>
where
    S: websocket::stream::r#async::Stream + Send + 'static,
{
    use websocket::codec::ws::Context;
    if !handshake {
        let c = if role == Role::Client { Context::Client } else { Context::Server };
        return Ok(tokio_codec::Decoder::framed(MessageCodec::default(c), s));
    }
    match role {
        Role::Client => ClientBuilder::new("ws://h/").unwrap().async_connect_on(s).wait().map(|x| x.0).map_err(|e| format!("async_connect_on: {:?}", e)),
        Role::Server => AsyncIntoWs::into_ws(s)
            .map_err(|e| format!("into_ws: {:?}", e.3))
            .and_then(|u| u.accept().map_err(|e| format!("accept: {:?}", e)))
            .wait()
            .map(|x| x.0),
    }
}
fn async_end<S>(s: S, role: Role, handshake: bool, tasks: bool, half: TcpStream) -> Result<End, String>
where
    S: websocket::stream::r#async::Stream + Send + 'static,
{
    let c = async_client(s, role, handshake)?;
    let (sink, stream) = c.split();
    if !tasks {
        let mut st = stream.wait();
        let mut si = sink.wait();
        return Ok(End {
            recv: Box::new(move || match st.next() {
                Some(Ok(m)) => Ok(M::of(&m)),
                Some(Err(e)) => Err(format!("{:?}", e)),
                None => Err("end of the stream".into()),
            }),
            send: Box::new(move |c| match c {
                Cmd::Item(i) => {
                    si.send(i.gives[0].owned()).map_err(|e| format!("{:?}", e))?;
                    si.flush().map_err(|e| format!("{:?}", e))
                }
                Cmd::Fin => half.shutdown(Shutdown::Write).map_err(|e| e.to_string()),
            }),
        });
    }
    let mut rt = tokio::runtime::Builder::new().core_threads(2).build().map_err(|e| format!("runtime: {}", e))?;
    let (tx, rx) = mpsc::channel();
    let tx2 = tx.clone();
    rt.spawn(
        stream
            .for_each(move |m| {
                let _ = tx.send(Ok(M::of(&m)));
                Ok(())
            })
            .then(move |r| {
                let _ = tx2.send(Err(format!("{:?}", r.map(|_| "end of the stream"))));
                Ok::<_, ()>(())
            }),
    );
    let (qtx, qrx) = futures::sync::mpsc::unbounded::<OwnedMessage>();
    let (dtx, drx) = mpsc::channel();
    rt.spawn(sink.sink_map_err(|e| format!("{:?}", e)).send_all(qrx.map_err(|_| "queue".to_string())).then(move |r| {
        // the sink stays alive, only its messages are out
        let r = r.map(|(sink, _)| std::mem::forget(sink));
        let _ = dtx.send(r);
        Ok::<_, ()>(())
    }));
    let mut qtx = Some(qtx);
    let rt = Arc::new(Mutex::new(Some(rt)));
    let rt2 = rt.clone();
    Ok(End {
        recv: Box::new(move || {
            let _keep = &rt2;
            match rx.recv() {
                Ok(m) => m,
                Err(_) => Err("the task is gone".into()),
            }
        }),
        send: Box::new(move |c| match c {
            Cmd::Item(i) => match &qtx {
                Some(q) => q.unbounded_send(i.gives[0].owned()).map_err(|_| "the sending task is gone".into()),
                None => Err("closed".into()),
            },
            Cmd::Fin => {
                qtx = None;
                // everything is written when the task is done
                drx.recv().map_err(|_| "the sending task is gone".to_string())??;
                let _keep = &rt;
                half.shutdown(Shutdown::Write).map_err(|e| e.to_string())
            }
        }),
    })
}

enum Sock {
    One(TcpStream),
    Two(TcpStream, TcpStream),
    Unix(UnixStream),
}
/// A TCP receive buffer is left alone: one smaller than a loopback segment makes the kernel wait on its
/// window-probe timers, for minutes in the worst case.
fn small_buffers(fd: i32, n: i32, both: bool) {
    for o in [libc::SO_SNDBUF, libc::SO_RCVBUF].into_iter().take(if both { 2 } else { 1 }) {
        unsafe {
            libc::setsockopt(fd, libc::SOL_SOCKET, o, &n as *const _ as *const _, 4);
        }
    }
}
fn tcp_pair(l: &TcpListener, small: Option<i32>) -> Result<(TcpStream, TcpStream), Fail> {
    let a = l.local_addr().map_err(|e| Fail::H(e.to_string()))?;
    let x = TcpStream::connect(a).map_err(|e| Fail::H(format!("connect: {}", e)))?;
    let (y, p) = l.accept().map_err(|e| Fail::H(format!("accept: {}", e)))?;
    if x.local_addr().ok() != Some(p) {
        hfail!("a stranger connected");
    }
    for s in [&x, &y] {
        if let Some(n) = small {
            small_buffers(s.as_raw_fd(), n, false);
        }
        let _ = s.set_nodelay(true);
    }
    Ok((x, y))
}
fn socks(transport: u8, small: Option<i32>) -> Result<(Sock, Sock), Fail> {
    Ok(match transport {
        0 => {
            let (l, _) = net::listener()?;
            let (a, b) = tcp_pair(&l, small)?;
            (Sock::One(a), Sock::One(b))
        }
        1 => {
            let (l, _) = net::listener()?;
            let (a, b) = tcp_pair(&l, small)?;
            let (c, d) = tcp_pair(&l, small)?;
            // a -> b and d -> c
            (Sock::Two(c, a), Sock::Two(b, d))
        }
        _ => {
            let (a, b) = UnixStream::pair().map_err(|e| Fail::H(e.to_string()))?;
            if let Some(n) = small {
                small_buffers(a.as_raw_fd(), n, true);
                small_buffers(b.as_raw_fd(), n, true);
            }
            (Sock::Unix(a), Sock::Unix(b))
        }
    })
}
fn tcp_fin() -> Box<dyn FnMut(&Writer<TcpStream>) -> Result<(), String> + Send> {
    Box::new(|w| w.shutdown().map_err(|e| format!("Writer::shutdown: {}", e)))
}
fn make(kind: Kind, s: Sock, role: Role, handshake: bool, rm: usize, wm: usize) -> Result<End, String> {
    let e = |e: std::io::Error| e.to_string();
    match (kind, s) {
        (Kind::Tcp, Sock::One(s)) => {
            let (r, w) = sync_client(s, role, handshake)?.split().map_err(e)?;
            Ok(End { recv: reader_fn(r, rm), send: writer_fn(w, wm, tcp_fin()) })
        }
        (Kind::PairClone, Sock::One(s)) => {
            let t = s.try_clone().map_err(e)?;
            let (r, w) = sync_client(ReadWritePair(t, s), role, handshake)?.split().map_err(e)?;
            Ok(End { recv: reader_fn(r, rm), send: writer_fn(w, wm, tcp_fin()) })
        }
        (Kind::PairTwo, Sock::Two(rd, wr)) => {
            let (r, w) = sync_client(ReadWritePair(rd, wr), role, handshake)?.split().map_err(e)?;
            Ok(End { recv: reader_fn(r, rm), send: writer_fn(w, wm, tcp_fin()) })
        }
        (Kind::PairBoxed, Sock::One(s)) => {
            let t: Box<dyn NetworkStream + Send> = Box::new(s.try_clone().map_err(e)?);
            let s: Box<dyn NetworkStream + Send> = Box::new(s);
            let (r, w) = sync_client(ReadWritePair(t, s), role, handshake)?.split().map_err(e)?;
            Ok(End { recv: reader_fn(r, rm), send: writer_fn(w, wm, Box::new(|w| w.shutdown().map_err(|e| format!("Writer::shutdown: {}", e)))) })
        }
        (Kind::Unix, Sock::Unix(s)) => {
            let t = s.try_clone().map_err(e)?;
            let (r, w) = sync_client(ReadWritePair(t, s), role, handshake)?.split().map_err(e)?;
            Ok(End { recv: reader_fn(r, rm), send: writer_fn(w, wm, Box::new(|w| w.stream.shutdown(Shutdown::Write).map_err(|e| e.to_string()))) })
        }
        (k, Sock::One(s)) if k.asy() => {
            let half = s.try_clone().map_err(e)?;
            let t = tokio_tcp::TcpStream::from_std(s, &tokio_reactor::Handle::default()).map_err(e)?;
            match k {
                Kind::AsyncHalves => {
                    let (r, w) = t.split();
                    async_end(ReadWritePair(r, w), role, handshake, false, half)
                }
                k => async_end(t, role, handshake, k == Kind::AsyncTasks, half),
            }
        }
        _ => Err("unmatched transport".into()),
    }
}

// ------------------------------------------------------------------ full duplex
struct Clock {
    seq: AtomicU64,
}
struct Tick<'a> {
    c: &'a Clock,
    who: u8,
    at: Vec<(u64, u8)>,
}
impl<'a> Tick<'a> {
    fn hit(&mut self) {
        self.at.push((self.c.seq.fetch_add(1, Ordering::SeqCst), self.who));
    }
}
fn pause(r: &mut Rng, level: usize) {
    match (level, r.below(40)) {
        (0, _) => {}
        (_, 0..=9) => std::thread::yield_now(),
        (2, 10) => std::thread::sleep(std::time::Duration::from_micros(200)),
        (3, 10..=14) => std::thread::sleep(std::time::Duration::from_micros(800)),
        _ => {}
    }
}
struct Got {
    msgs: usize,
    bad: Option<String>,
    end: String,
}
/// receives to the end and compares on the fly
fn take(mut recv: RecvFn, want: &[M], level: usize, mut r: Rng, mut t: Tick, forward: Option<mpsc::Sender<M>>, keep: &Mutex<Vec<RecvFn>>) -> (Got, Vec<(u64, u8)>) {
    let mut g = Got { msgs: 0, bad: None, end: String::new() };
    loop {
        match recv() {
            Ok(m) => {
                t.hit();
                if g.bad.is_none() && want.get(g.msgs) != Some(&m) {
                    g.bad = Some(format!("message {} is {}, sent was {}", g.msgs, m.short(), want.get(g.msgs).map(|m| m.short()).unwrap_or_else(|| "nothing more".into())));
                }
                g.msgs += 1;
                if let Some(f) = &forward {
                    let _ = f.send(m);
                }
                pause(&mut r, level);
            }
            Err(e) => {
                g.end = e;
                break;
            }
        }
    }
    // a connection closed early would disturb the other direction
    keep.lock().unwrap().push(recv);
    (g, t.at)
}
fn give(mut send: SendFn, v: &[Item], level: usize, mut r: Rng, mut t: Tick, from: Option<mpsc::Receiver<M>>, keep: &Mutex<Vec<SendFn>>) -> (Result<usize, String>, Vec<(u64, u8)>) {
    let mut n = 0;
    let res = (|| {
        for i in v {
            send(Cmd::Item(i)).map_err(|e| format!("sending item {}: {}", n, e))?;
            n += i.gives.len();
            t.hit();
            pause(&mut r, level);
        }
        if let Some(f) = from {
            while let Ok(m) = f.recv() {
                send(Cmd::Item(&Item { frames: vec![], gives: vec![m] })).map_err(|e| format!("sending back {}: {}", n, e))?;
                n += 1;
                t.hit();
            }
        }
        send(Cmd::Fin).map_err(|e| format!("closing after {}: {}", n, e))
    })();
    keep.lock().unwrap().push(send);
    (res.map(|_| n), t.at)
}
fn duplex(c: &mut Case, ka: Kind, kb: Kind, big: bool) -> Res {
    let small = if c.rng.chance(1, 2) { Some(*c.rng.pick(&[1024i32, 4096, 16384])) } else { None };
    let handshake = c.rng.chance(1, 2);
    let echo = c.rng.chance(1, 4);
    let (rm, wm) = ([c.rng.below(5), c.rng.below(5)], [c.rng.below(3), c.rng.below(3)]);
    let level = [c.rng.below(4), c.rng.below(4), c.rng.below(4), c.rng.below(4)];
    let n = match (c.rng.below(4), big) {
        (0, false) => 3,
        (_, false) => c.rng.range(5, 60),
        (_, true) => c.rng.range(40, 400),
    };
    let whole = |v: Vec<Item>| v.into_iter().map(|i| Item { frames: vec![], gives: vec![i.gives.last().unwrap().clone()] }).collect::<Vec<_>>();
    let nb = c.rng.range(0, n);
    let (mut va, mut vb) = (items(&mut c.rng, b'>', n, big), if echo { vec![] } else { items(&mut c.rng, b'<', nb, big) });
    if ka.asy() {
        va = whole(va);
    }
    if kb.asy() {
        vb = whole(vb);
    }
    for v in [&mut va, &mut vb] {
        // nothing follows a close
        if !echo && c.rng.chance(1, 3) {
            v.push(Item { frames: vec![], gives: vec![M::Close(Some((1000, "done".into())))] });
        }
    }
    c.note(format!("{:?} <-> {:?} {} items / {} back{}, buffers {:?}, handshake {}, modes {:?} {:?}, pauses {:?}", ka, kb, va.len(), vb.len(), if echo { " (sent back)" } else { "" }, small, handshake, rm, wm, level));
    let (sa, sb) = socks(ka.transport(), small)?;
    let (wa, wb) = (gives(&va), if echo { gives(&va) } else { gives(&vb) });
    let bytes: usize = wa.iter().chain(&wb).map(|m| m.payload().len()).sum();
    let seeds: Vec<Rng> = (0..4).map(|_| Rng::new(c.rng.u64())).collect();
    let clock = Clock { seq: AtomicU64::new(0) };
    let (keep_r, keep_s) = (Mutex::new(vec![]), Mutex::new(vec![]));
    let (ea, eb) = std::thread::scope(|s| {
        let b = s.spawn(|| make(kb, sb, Role::Server, handshake, rm[1], wm[1]));
        let a = make(ka, sa, Role::Client, handshake, rm[0], wm[0]);
        (a, b.join())
    });
    let eb = match eb {
        Ok(e) => e,
        Err(_) => viol!("the server end panicked while it was set up"),
    };
    let (ea, eb) = match (ea, eb) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => viol!("setting up the connection: client end {:?}, server end {:?}", a.err(), b.err()),
    };
    let tick = |who| Tick { c: &clock, who, at: vec![] };
    let (tx, rx) = mpsc::channel();
    let (ftx, frx) = if echo { (Some(tx), Some(rx)) } else { (None, None) };
    let out = std::thread::scope(|s| {
        let h1 = s.spawn(|| take(eb.recv, &wa, level[0], seeds[0].clone(), tick(0), ftx, &keep_r));
        let h2 = s.spawn(|| take(ea.recv, &wb, level[1], seeds[1].clone(), tick(1), None, &keep_r));
        let h3 = s.spawn(|| give(eb.send, &vb, level[2], seeds[2].clone(), tick(2), frx, &keep_s));
        let h4 = s.spawn(|| give(ea.send, &va, level[3], seeds[3].clone(), tick(3), None, &keep_s));
        (h1.join(), h2.join(), h3.join(), h4.join())
    });
    let (g1, g2, s3, s4) = match out {
        (Ok(a), Ok(b), Ok(c), Ok(d)) => (a, b, c, d),
        _ => viol!("a thread using its half of the connection panicked"),
    };
    for (what, g, w) in [("client to server", &g1.0, &wa), ("server to client", &g2.0, &wb)] {
        if let Some(b) = &g.bad {
            viol!("{}: {}", what, b);
        }
        ensure!(g.msgs == w.len(), "{}: {} of {} messages arrived, then {}; senders: {:?} {:?}", what, g.msgs, w.len(), g.end, s4.0, s3.0);
    }
    ensure!(s3.0.is_ok() && s4.0.is_ok(), "sending failed although everything arrived: {:?} {:?}", s3.0, s4.0);
    // what was observed: the order in which the four threads got ahead
    let mut at: Vec<(u64, u8)> = [g1.1, g2.1, s3.1, s4.1].concat();
    at.sort();
    let order: Vec<u8> = at.iter().map(|x| x.1).collect();
    c.ev("messages", (wa.len() + wb.len()) as u64);
    c.ev("payload_kib", (bytes / 1024) as u64);
    c.ev("thread_alternations", order.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    // both halves of one end in use at the same time
    let (first, last) = |v: u8| -> (usize, usize) { (order.iter().position(|x| *x == v).unwrap_or(usize::MAX), order.iter().rposition(|x| *x == v).unwrap_or(0)) }(1);
    c.ev("receives_between_own_sends", order.iter().enumerate().filter(|(i, x)| **x == 3 && *i > first && *i < last).count() as u64);
    c.seen("interleavings", hash(&order));
    c.ev(&format!("{:?}", ka), 1);
    c.ev(&format!("{:?}", kb), 1);
    c.eval(hash_s(&c.trace[0]));
    let t = c.trace[0].clone();
    c.sample(|| format!("{} -> {} and {} messages in order, {} alternations", t, wa.len(), wb.len(), order.windows(2).filter(|w| w[0] != w[1]).count()));
    Ok(())
}

// ------------------------------------------------------------------ shutting down
#[derive(Clone, Copy, PartialEq, Debug)]
enum Part {
    Write,
    Read,
    /// called on the reader / the writer
    AllByReader,
    AllByWriter,
    Drop,
}
const PARTS: [Part; 5] = [Part::Write, Part::Read, Part::AllByReader, Part::AllByWriter, Part::Drop];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Split {
    Tcp,
    Pair,
    Boxed,
}
struct Halves {
    recv: Box<dyn FnMut(RC) -> Result<Option<M>, String> + Send>,
    send: Box<dyn FnMut(SC) -> Result<(), String> + Send>,
}
enum RC {
    Recv,
    Shut,
    All,
}
enum SC<'a> {
    Item(&'a Item),
    Shut,
    All,
}
fn halves<R, W>(r: Reader<R>, w: Writer<W>, rm: usize, wm: usize) -> Halves
where
    R: websocket::stream::sync::AsTcpStream + websocket_base::stream::Stream + Send + 'static,
    W: websocket::stream::sync::AsTcpStream + Write + Send + 'static,
{
    let mut r = r;
    let mut w = w;
    Halves {
        recv: Box::new(move |c| match c {
            RC::Recv => {
                let e = |e: websocket::WebSocketError| format!("{:?}", e);
                match rm {
                    0 => r.recv_message().map(|m| Some(M::of(&m))).map_err(e),
                    1 => r.incoming_messages().next().ok_or("end of the iterator".to_string())?.map(|m| Some(M::of(&m))).map_err(e),
                    _ => r.recv_dataframe().map_err(e).and_then(|d| Ok(Some(M::build(d.opcode as u8, &d.data).ok_or("not a message")?))),
                }
            }
            RC::Shut => r.shutdown().map(|_| None).map_err(|e| format!("Reader::shutdown: {}", e)),
            RC::All => r.shutdown_all().map(|_| None).map_err(|e| format!("Reader::shutdown_all: {}", e)),
        }),
        send: Box::new(move |c| match c {
            SC::Item(i) => write_item(&mut w, i, wm),
            SC::Shut => w.shutdown().map_err(|e| format!("Writer::shutdown: {}", e)),
            SC::All => w.shutdown_all().map_err(|e| format!("Writer::shutdown_all: {}", e)),
        }),
    }
}
/// the peer's view of one direction
struct Seen {
    msgs: Vec<M>,
    rest: usize,
    end: String,
    clean: bool,
}
fn peer_read<S: Read>(mut s: S, masked: bool, slow: bool, mut r: Rng) -> Result<Seen, String> {
    let mut v = vec![];
    let mut b = vec![0u8; 65536];
    let (end, clean) = loop {
        let n = if slow { r.range(1, 2000) } else { b.len() };
        match s.read(&mut b[..n]) {
            Ok(0) => break ("end of stream".to_string(), true),
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(e) => break (e.to_string(), false),
        }
        if slow && r.chance(1, 30) {
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
    };
    let mut j = Join::default();
    let mut msgs = vec![];
    let mut p = 0;
    while let Some((f, n)) = wire::parse_one(&v[p..]) {
        if f.mask.is_some() != masked {
            return Err("a frame with the wrong masking".into());
        }
        p += n;
        if let Some(m) = j.add(f.fin, f.op, f.payload)? {
            msgs.push(m);
        }
    }
    Ok(Seen { msgs, rest: v.len() - p, end, clean })
}
fn encode(it: &Item, masked: bool, r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let one = |fin, op, p: &[u8], r: &mut Rng| {
        let k = r.bytes(4);
        wire::F::new(fin, op, p.to_vec()).masked(if masked { Some([k[0], k[1], k[2], k[3]]) } else { None }).encode()
    };
    if it.frames.is_empty() {
        v.extend(one(true, it.gives[0].op(), &it.gives[0].payload(), r));
    }
    for f in &it.frames {
        v.extend(one(f.0, f.1, &f.2, r));
    }
    v
}
fn whole(v: Vec<Item>) -> Vec<Item> {
    v.into_iter().map(|i| Item { frames: vec![], gives: vec![i.gives.last().unwrap().clone()] }).collect()
}
fn cut(w: &[M], g: &[M], what: &str) -> Res {
    for (i, m) in g.iter().enumerate() {
        ensure!(w.get(i) == Some(m), "{}: message {} is {}, sent was {:?}", what, i, m.short(), w.get(i).map(|m| m.short()));
    }
    Ok(())
}
fn shutting(c: &mut Case, sp: Split, part: Part) -> Res {
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let masked = role.send_masked();
    let (k1, k2, j1, j2) = (c.rng.below(30), c.rng.range(1, 10), c.rng.below(30), c.rng.range(1, 10));
    let big = c.rng.chance(1, 3);
    let handshake = c.rng.chance(1, 3);
    let small = if part != Part::Read && c.rng.chance(1, 2) { Some(4096) } else { None };
    let (j1, j2) = if part == Part::Read { (j1 / 3, j2 / 3) } else { (j1, j2) };
    let slow = c.rng.chance(1, 3);
    let (rm, wm) = (c.rng.below(3), c.rng.below(3));
    let va = items(&mut c.rng, b'>', k1, big);
    let va2 = items(&mut c.rng, b'>', k2, big);
    // a reader shut down reads no more, so what the peer sends must fit its buffers
    let big_in = big && matches!(part, Part::Write);
    let vb = whole(items(&mut c.rng, b'<', j1, big_in));
    let vb2 = whole(items(&mut c.rng, b'<', j2, big_in));
    let stop_after = c.rng.below(gives(&vb).len() + 1);
    // the peer goes on sending while everything is shut down
    let busy = matches!(part, Part::AllByReader | Part::AllByWriter) && c.rng.chance(1, 3);
    c.note(format!(
        "{:?} {:?} as {:?}: sends {} then {}, peer sends {} then {}, big {}, buffers {:?}, slow peer {}, handshake {}, modes {} {}, read shut after {}, peer busy {}",
        sp, part, role, k1, k2, j1, j2, big, small, slow, handshake, rm, wm, stop_after, busy
    ));
    let (l, _) = net::listener()?;
    let (a, b) = tcp_pair(&l, small)?;
    net::guard_sock(&b);
    let eh = |e: std::io::Error| Fail::H(e.to_string());
    let keep = a.try_clone().map_err(eh)?;
    // the handshake with a peer of the harness's own
    let mut b2 = b.try_clone().map_err(eh)?;
    fn ends<S>(s: S, role: Role, hs: bool, b2: &mut TcpStream) -> Result<Client<S>, Fail>
    where
        S: websocket_base::stream::Stream + Send,
    {
        let r = std::thread::scope(|sc| {
            let h = sc.spawn(|| -> Result<(), String> {
                if !hs {
                    return Ok(());
                }
                if role == Role::Client {
                    net::answer(b2, &[]).map(|_| ())
                } else {
                    b2.write_all(&crate::hs::request()).map_err(|e| e.to_string())?;
                    net::read_head(b2).map(|_| ())
                }
            });
            let c = sync_client(s, role, hs);
            (c, h.join())
        });
        match r {
            (Ok(c), Ok(Ok(()))) => Ok(c),
            (c, h) => Err(Fail::V(format!("setting up: {:?}, peer {:?}", c.err(), h))),
        }
    }
    let h = match sp {
        Split::Tcp => {
            let (r, w) = match ends(a, role, handshake, &mut b2)?.split() {
                Ok(x) => x,
                Err(e) => viol!("split: {}", e),
            };
            halves(r, w, rm, wm)
        }
        Split::Pair => {
            let t = a.try_clone().map_err(eh)?;
            let (r, w) = match ends(ReadWritePair(t, a), role, handshake, &mut b2)?.split() {
                Ok(x) => x,
                Err(e) => viol!("split: {}", e),
            };
            halves(r, w, rm, wm)
        }
        Split::Boxed => {
            let t: Box<dyn NetworkStream + Send> = Box::new(a.try_clone().map_err(eh)?);
            let a: Box<dyn NetworkStream + Send> = Box::new(a);
            let (r, w) = match ends(ReadWritePair(t, a), role, handshake, &mut b2)?.split() {
                Ok(x) => x,
                Err(e) => viol!("split: {}", e),
            };
            halves(r, w, rm, wm)
        }
    };
    let (w1, w2) = (gives(&va), gives(&va2));
    let (i1, i2) = (gives(&vb), gives(&vb2));
    let mut br = Rng::new(c.rng.u64());
    let bytes1: Vec<u8> = vb.iter().flat_map(|i| encode(i, !masked, &mut br)).collect();
    let bytes2: Vec<u8> = vb2.iter().flat_map(|i| encode(i, !masked, &mut br)).collect();
    let pr = Rng::new(c.rng.u64());
    let rd = b.try_clone().map_err(eh)?;
    let mut bw = b;
    // what happened, as text; Err = violation
    let (tell_end, wait_end) = mpsc::channel::<()>();
    let (recvd, recvd_rx) = mpsc::channel::<()>();
    let (shut, shut_rx) = mpsc::channel::<()>();
    let (sent, sent_rx) = mpsc::channel::<()>();
    let done = std::sync::atomic::AtomicBool::new(false);
    // the socket stays open until the peer saw the end
    let mut keep = Some(keep);
    if part == Part::Drop {
        keep = None;
    }
    let res = std::thread::scope(|s| {
        let peer_r = s.spawn(move || {
            let r = peer_read(rd, masked, slow, pr);
            let _ = tell_end.send(());
            r
        });
        let i1n = i1.len();
        let done = &done;
        let Halves { mut recv, mut send } = h;
        // the reader thread
        let reader = s.spawn(move || -> Result<(Vec<M>, String), String> {
            let mut got = vec![];
            if part == Part::Read && stop_after == 0 {
                recv(RC::Shut)?;
                let _ = shut.send(());
            }
            if i1n == 0 {
                let _ = recvd.send(());
            }
            if part == Part::Drop && i1n == 0 {
                drop(recv);
                return Ok((got, "dropped".into()));
            }
            if part == Part::AllByReader && i1n == 0 {
                let _ = sent_rx.recv();
                recv(RC::All)?;
                let _ = shut.send(());
            }
            loop {
                match recv(RC::Recv) {
                    Ok(m) => got.push(m.unwrap()),
                    Err(e) => return Ok((got, e)),
                }
                if part == Part::Read && got.len() == stop_after {
                    recv(RC::Shut)?;
                    let _ = shut.send(());
                }
                if got.len() == i1n {
                    let _ = recvd.send(());
                    if part == Part::Drop {
                        drop(recv);
                        return Ok((got, "dropped".into()));
                    }
                    if part == Part::AllByReader {
                        // after the writer sent what it has
                        let _ = sent_rx.recv();
                        recv(RC::All)?;
                        let _ = shut.send(());
                    }
                }
            }
        });
        let (va, va2) = (&va, &va2);
        let writer = s.spawn(move || -> Result<(), String> {
            for (n, i) in va.iter().enumerate() {
                send(SC::Item(i)).map_err(|e| format!("sending item {}: {}", n, e))?;
            }
            let small = Item { frames: vec![], gives: vec![M::Text("x".into())] };
            let after = |h: &mut Box<dyn FnMut(SC) -> Result<(), String> + Send>| match h(SC::Item(&small)) {
                Err(_) => Ok(()),
                Ok(()) => Err("a message was sent after the sending direction was shut down".to_string()),
            };
            match part {
                Part::Write => {
                    send(SC::Shut)?;
                    after(&mut send)?;
                }
                Part::AllByWriter => {
                    // all that came in is in: nothing can be reset under it
                    if recvd_rx.recv().is_err() {
                        return Err("VOID".into());
                    }
                    send(SC::All)?;
                    after(&mut send)?;
                }
                Part::AllByReader => {
                    let _ = sent.send(());
                    if shut_rx.recv().is_err() {
                        return Err("VOID".into());
                    }
                    after(&mut send)?;
                }
                Part::Read => {
                    if shut_rx.recv().is_err() {
                        return Err("VOID".into());
                    }
                    for (n, i) in va2.iter().enumerate() {
                        send(SC::Item(i)).map_err(|e| format!("sending item {} after the receiving direction was shut down: {}", n, e))?;
                    }
                    send(SC::Shut)?;
                    after(&mut send)?;
                }
                Part::Drop => {
                    if recvd_rx.recv().is_err() {
                        return Err("VOID".into());
                    }
                    for (n, i) in va2.iter().enumerate() {
                        send(SC::Item(i)).map_err(|e| format!("sending item {} after the reader was dropped: {}", n, e))?;
                    }
                    drop(send);
                    return Ok(());
                }
            }
            done.store(true, Ordering::SeqCst);
            Ok(())
        });
        // the peer's sending side
        let w = bw.write_all(&bytes1).map_err(|e| e.to_string());
        if busy {
            // until it is told to stop
            let mut i = 0;
            while bw.write_all(&bytes2).is_ok() && i < 3000 {
                i += 1;
                if bytes2.is_empty() || done.load(Ordering::SeqCst) && i > 50 {
                    break;
                }
            }
        }
        let _ = wait_end.recv();
        let w2 = if part == Part::Write {
            let r = bw.write_all(&bytes2).map_err(|e| e.to_string());
            let _ = bw.shutdown(Shutdown::Write);
            r
        } else {
            Ok(())
        };
        (peer_r.join(), reader.join(), writer.join(), w, w2)
    });
    drop(bw);
    drop(keep);
    let (p, r, wr) = match (res.0, res.1, res.2) {
        (Ok(p), Ok(r), Ok(w)) => (p, r, w),
        _ => viol!("a thread panicked"),
    };
    let p = match p {
        Ok(p) => p,
        Err(e) => viol!("the peer received {}", e),
    };
    let (got, end) = match r {
        Ok(x) => x,
        Err(e) => viol!("{}", e),
    };
    if let Err(e) = &wr {
        viol!("{} (received {} of {}, then {}; peer saw {} messages, then {})", e, got.len(), i1.len(), end, p.msgs.len(), p.end);
    }
    ensure!(res.3.is_ok() || busy || part == Part::Read, "the peer could not send: {:?}", res.3);
    let want_out: Vec<M> = if matches!(part, Part::Read | Part::Drop) { [w1.clone(), w2.clone()].concat() } else { w1.clone() };
    cut(&want_out, &p.msgs, "towards the peer")?;
    if !busy {
        ensure!(p.msgs.len() == want_out.len() && p.rest == 0 && p.clean, "the peer received {} of {} messages and {} more bytes, then {}", p.msgs.len(), want_out.len(), p.rest, p.end);
    }
    let want_in: Vec<M> = if part == Part::Write || busy { [i1.clone(), i2.clone()].concat() } else { i1.clone() };
    match part {
        Part::Write => {
            cut(&want_in, &got, "from the peer")?;
            ensure!(res.4.is_ok(), "the peer could not send any more after the other direction was shut down: {:?}", res.4);
            ensure!(got.len() == want_in.len(), "{} of {} messages received after the sending direction was shut down, then {}", got.len(), want_in.len(), end);
        }
        Part::Read => {
            cut(&want_in, &got, "from the peer")?;
            ensure!(got.len() >= stop_after, "{} of {} messages received before the receiving direction was shut down, then {}", got.len(), stop_after, end);
        }
        _ => {
            if !busy {
                cut(&want_in, &got, "from the peer")?;
            } else {
                // i2 over and over
                cut(&i1, &got[..got.len().min(i1.len())], "from the peer")?;
                for (n, m) in got.iter().skip(i1.len()).enumerate() {
                    ensure!(*m == i2[n % i2.len()], "from the peer: message {} is {}", n, m.short());
                }
            }
            ensure!(got.len() >= i1.len(), "{} of {} messages received before all was shut down, then {}", got.len(), i1.len(), end);
        }
    }
    c.ev("shutdowns", 1);
    c.ev(&format!("{:?}", part), 1);
    c.ev("messages", (got.len() + p.msgs.len()) as u64);
    c.ev("messages_after_a_shutdown", match part {
        Part::Write => i2.len() as u64,
        Part::Read | Part::Drop => w2.len() as u64,
        _ => 0,
    });
    c.eval(hash_s(&c.trace[0]));
    let t = c.trace[0].clone();
    c.sample(|| format!("{} -> peer got {} then {}, own receive got {} then {}", t, p.msgs.len(), p.end, got.len(), trunc(&end, 60)));
    Ok(())
}

// ------------------------------------------------------------------ shutting down a client that is not split
#[derive(Clone, Copy, PartialEq, Debug)]
enum Whole {
    Tcp,
    BoxTcp,
    BoxDyn,
    Tls,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Sender,
    Receiver,
    All,
}
fn unsplit(c: &mut Case, w: &World, kind: Whole) -> Res {
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let op = if kind == Whole::Tcp { *c.rng.pick(&[Op::Sender, Op::Receiver, Op::All]) } else { Op::All };
    let big = c.rng.chance(1, 3);
    let (k1, k2, j1, j2) = (c.rng.below(20), c.rng.range(1, 8), c.rng.below(20), c.rng.range(1, 8));
    let va = items(&mut c.rng, b'>', k1, big);
    let va2 = items(&mut c.rng, b'>', k2, big);
    let vb = whole(items(&mut c.rng, b'<', j1, false));
    let vb2 = whole(items(&mut c.rng, b'<', j2, false));
    c.note(format!("{:?} as {:?}: {:?} after {} sent and {} received, then {} and {}, big {}", kind, role, op, k1, j1, k2, j2, big));
    let (l, _) = net::listener()?;
    let (a, b) = tcp_pair(&l, None)?;
    net::guard_sock(&b);
    let (me, you) = (a.local_addr().ok(), a.peer_addr().ok());
    let masked = role.send_masked();
    let mut br = Rng::new(c.rng.u64());
    let bytes1: Vec<u8> = vb.iter().flat_map(|i| encode(i, !masked, &mut br)).collect();
    let bytes2: Vec<u8> = vb2.iter().flat_map(|i| encode(i, !masked, &mut br)).collect();
    let (w1, w2, i1, i2) = (gives(&va), gives(&va2), gives(&vb), gives(&vb2));
    let pr = Rng::new(c.rng.u64());
    type PeerOut = Result<(Seen, bool), String>;
    // our end is through, without any help of the peer's
    let (over_tx, over) = std::sync::mpsc::channel::<()>();
    let over = std::sync::Mutex::new(over);
    trait Rw: Read + Write {
        fn fin(&mut self) {}
    }
    impl Rw for TcpStream {
        fn fin(&mut self) {
            let _ = self.shutdown(Shutdown::Write);
        }
    }
    impl Rw for native_tls::TlsStream<TcpStream> {}
    let peer = |mut s: Box<dyn Rw>| -> PeerOut {
        s.write_all(&bytes1).map_err(|e| format!("peer write: {}", e))?;
        let seen = peer_read(&mut s, masked, false, pr.clone())?;
        let ok = op != Op::Sender || s.write_all(&bytes2).is_ok();
        if op == Op::All && over.lock().unwrap().recv_timeout(std::time::Duration::from_secs(15)).is_err() {
            return Err("with everything shut down, receiving was still waiting for this end".to_string());
        }
        s.fin();
        Ok((seen, ok))
    };
    fn drive<S, F, G>(s: S, role: Role, op: Op, send: [&[Item]; 2], recv: [&[M]; 2], wm: usize, part: F, addrs: G) -> Res
    where
        S: websocket::stream::sync::AsTcpStream + websocket_base::stream::Stream,
        F: Fn(&Client<S>, Op) -> std::io::Result<()>,
        G: Fn(&Client<S>) -> Res,
    {
        let mut cl = match sync_client(s, role, false) {
            Ok(c) => c,
            Err(e) => viol!("setting up: {}", e),
        };
        addrs(&cl)?;
        let put = |cl: &mut Client<S>, i: &Item| -> Result<(), String> {
            let e = |e: websocket::WebSocketError| format!("{:?}", e);
            if i.frames.is_empty() {
                return if wm == 0 { cl.send_message(&i.gives[0].owned()).map_err(e) } else { cl.send_message(&Message::from(i.gives[0].owned())).map_err(e) };
            }
            for f in &i.frames {
                cl.send_dataframe(&frame(f)).map_err(e)?;
            }
            Ok(())
        };
        for i in send[0] {
            if let Err(e) = put(&mut cl, i) {
                viol!("sending before the shutdown: {}", e);
            }
        }
        for (n, m) in recv[0].iter().enumerate() {
            match cl.recv_message() {
                Ok(g) => ensure!(M::of(&g) == *m, "message {} is {}, sent was {}", n, M::of(&g).short(), m.short()),
                Err(e) => viol!("receiving message {}: {:?}", n, e),
            }
        }
        if let Err(e) = part(&cl, op) {
            viol!("{:?} shutdown failed: {}", op, e);
        }
        let x = Item { frames: vec![], gives: vec![M::Text("x".into())] };
        if op == Op::Receiver {
            for i in send[1] {
                if let Err(e) = put(&mut cl, i) {
                    viol!("sending after the receiving direction was shut down: {}", e);
                }
            }
        } else {
            ensure!(put(&mut cl, &x).is_err(), "a message was sent after {:?} was shut down", op);
        }
        if op == Op::Sender {
            for (n, m) in recv[1].iter().enumerate() {
                match cl.recv_message() {
                    Ok(g) => ensure!(M::of(&g) == *m, "message {} after the shutdown is {}, sent was {}", n, M::of(&g).short(), m.short()),
                    Err(e) => viol!("receiving message {} after the sending direction was shut down: {:?}", n, e),
                }
            }
        }
        if let Ok(m) = cl.recv_message() {
            viol!("received {} when nothing more can come", M::of(&m).short());
        }
        if op == Op::Receiver {
            if let Err(e) = part(&cl, Op::Sender) {
                viol!("shutting down the rest failed: {}", e);
            }
            ensure!(put(&mut cl, &x).is_err(), "a message was sent after everything was shut down");
        }
        Ok(())
    }
    let wm = c.rng.below(2);
    // the socket stays open until the peer saw the end
    let _keep = a.try_clone().map_err(|e| Fail::H(e.to_string()))?;
    let fd = _keep.as_raw_fd();
    let all = |o: Op| -> bool { o == Op::All };
    let (mine, theirs) = match kind {
        Whole::Tls => {
            let leaf = leaf_for("server.test", None);
            let id = identity(&leaf, Some(&w.ca), &[])?;
            let acc = native_tls::TlsAcceptor::new(id).map_err(|e| Fail::H(e.to_string()))?;
            let con = connector(&w.ca)?;
            std::thread::scope(|s| {
                let server_is_lib = role == Role::Server;
                let (pa, pc) = (acc.clone(), con.clone());
                let peer = &peer;
                let h = s.spawn(move || -> PeerOut {
                    let t = if server_is_lib { pc.connect("server.test", b).map_err(|e| e.to_string()) } else { pa.accept(b).map_err(|e| e.to_string()) };
                    peer(Box::new(t?))
                });
                let t = if server_is_lib { acc.accept(a).map_err(|e| e.to_string()) } else { con.connect("server.test", a).map_err(|e| e.to_string()) };
                let r = match t {
                    Ok(t) => drive(t, role, op, [&va, &va2], [&i1, &i2], wm, |c, o| if all(o) { c.shutdown() } else { Ok(()) }, |c| {
                        ensure!(c.local_addr().ok() == me && c.peer_addr().ok() == you, "addresses");
                        Ok(())
                    }),
                    Err(e) => Err(Fail::H(format!("TLS: {}", e))),
                };
                if r.is_err() {
                    unsafe {
                        libc::shutdown(fd, libc::SHUT_RDWR);
                    }
                }
                let _ = over_tx.send(());
                (r, h.join())
            })
        }
        _ => std::thread::scope(|s| {
            let peer = &peer;
            let h = s.spawn(move || peer(Box::new(b)));
            let same = |l: std::io::Result<std::net::SocketAddr>, p: std::io::Result<std::net::SocketAddr>| -> Res {
                ensure!(l.as_ref().ok() == me.as_ref() && p.as_ref().ok() == you.as_ref(), "the client reports the addresses {:?} {:?}, they are {:?} {:?}", l, p, me, you);
                Ok(())
            };
            let (sv, rv) = ([&va[..], &va2[..]], [&i1[..], &i2[..]]);
            let r = match kind {
                Whole::BoxTcp => drive(Box::new(a), role, op, sv, rv, wm, |c, _| c.shutdown(), |c| same(c.local_addr(), c.peer_addr())),
                Whole::BoxDyn => {
                    let a: Box<dyn NetworkStream + Send> = Box::new(a);
                    drive(a, role, op, sv, rv, wm, |c, _| c.shutdown(), |c| same(c.local_addr(), c.peer_addr()))
                }
                _ => drive(
                    a,
                    role,
                    op,
                    sv,
                    rv,
                    wm,
                    |c, o| match o {
                        Op::Sender => c.shutdown_sender(),
                        Op::Receiver => c.shutdown_receiver(),
                        Op::All => c.shutdown(),
                    },
                    |c| same(c.local_addr(), c.peer_addr()),
                ),
            };
            if r.is_err() {
                unsafe {
                    libc::shutdown(fd, libc::SHUT_RDWR);
                }
            }
            let _ = over_tx.send(());
            (r, h.join())
        }),
    };
    mine?;
    let p = match theirs {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => viol!("the peer: {}", e),
        Err(_) => hfail!("the peer panicked"),
    };
    let want: Vec<M> = if op == Op::Receiver { [w1, w2].concat() } else { w1 };
    cut(&want, &p.0.msgs, "towards the peer")?;
    ensure!(p.0.msgs.len() == want.len() && p.0.rest == 0, "the peer received {} of {} messages and {} more bytes, then {}", p.0.msgs.len(), want.len(), p.0.rest, p.0.end);
    ensure!(p.0.clean || kind == Whole::Tls, "the peer's end is {}", p.0.end);
    ensure!(p.1, "the peer could not send after the other direction was shut down");
    c.ev("shutdowns", 1);
    c.ev(&format!("whole_{:?}_{:?}", kind, op), 1);
    c.ev("messages", (want.len() + i1.len()) as u64);
    c.eval(hash_s(&c.trace[0]));
    let t = c.trace[0].clone();
    c.sample(|| format!("{} -> peer got {} then {}", t, p.0.msgs.len(), p.0.end));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.cap(8, 20);
    x.rule("distinct scenarios: transport and interface of both ends, numbers and kinds of messages, buffer sizes, pauses, the shutdown called and where it falls");
    x.assume("what a receiving direction shut down does to the peer's own writes is the kernel's business (Linux accepts them)");
    let w = World::new();
    for (i, k) in KINDS.iter().enumerate() {
        for o in KINDS.iter().filter(|o| o.transport() == k.transport()) {
            let _ = i;
            x.run(&format!("duplex_{:?}_{:?}", k, o), x.q(25, 400), |c| duplex(c, *k, *o, false));
        }
    }
    for (k, o) in [(Kind::Tcp, Kind::Tcp), (Kind::PairTwo, Kind::PairTwo), (Kind::AsyncWait, Kind::Tcp), (Kind::Tcp, Kind::AsyncTasks), (Kind::AsyncHalves, Kind::AsyncWait), (Kind::Unix, Kind::Unix)] {
        x.run(&format!("duplex_big_{:?}_{:?}", k, o), x.q(8, 120), |c| duplex(c, k, o, true));
    }
    for s in [Split::Tcp, Split::Pair, Split::Boxed] {
        for p in PARTS {
            x.run(&format!("shutdown_{:?}_{:?}", s, p), x.q(if s == Split::Tcp { 200 } else { 60 }, 3000), |c| shutting(c, s, p));
        }
    }
    for k in [Whole::Tcp, Whole::BoxTcp, Whole::BoxDyn, Whole::Tls] {
        x.run(&format!("unsplit_{:?}", k), x.q(if k == Whole::Tcp { 300 } else { 60 }, 3000), |c| unsplit(c, &w, k));
    }
    x.need("messages", 20_000);
    x.need("shutdowns", 1000);
    x.need("thread_alternations", 5_000);
    x.need("receives_between_own_sends", 500);
    x.need("messages_after_a_shutdown", 500);
}
