//! C30: the work done for a connection stays proportional to the bytes moved over it.
use crate::alloc;
use crate::core::*;
use crate::gen;
use crate::wire::*;
use crate::*;
use bytes::BytesMut;
use futures::executor::{self, Notify, NotifyHandle};
use futures::{Async, AsyncSink, Poll, Sink, Stream};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::Arc;
use tokio_codec::{Decoder, Encoder};
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::r#async::{MessageCodec, MsgCodecCtx};
use websocket::receiver::{Reader, Receiver};
use websocket::sender::{Sender, Writer};
use websocket::sync::Client;
use websocket::ws::dataframe::DataFrame as _;
use websocket::ws::Receiver as _;
use websocket::ws::Sender as _;
use websocket::{OwnedMessage, WebSocketError};

// ------------------------------------------------------------------ a transport that costs next to nothing
struct Lean {
    data: Arc<Vec<u8>>,
    /// ends of the segments, ascending, the last one at the end of the data
    cuts: Arc<Vec<usize>>,
    pos: usize,
    seg: usize,
    /// waits before every segment, and how many are left before this one
    waits: usize,
    left: usize,
    kind: ErrorKind,
    reads: u64,
    /// bytes taken per write, and whether every other write has to wait
    take: usize,
    push_back: bool,
    blocked: bool,
    writes: u64,
    written: u64,
}
impl Lean {
    fn new(data: Arc<Vec<u8>>, cuts: Arc<Vec<usize>>, waits: usize, kind: ErrorKind) -> Lean {
        Lean {
            data,
            cuts,
            pos: 0,
            seg: 0,
            waits,
            left: waits,
            kind,
            reads: 0,
            take: usize::MAX,
            push_back: false,
            blocked: false,
            writes: 0,
            written: 0,
        }
    }
    fn sink(take: usize, push_back: bool) -> Lean {
        let mut l = Lean::new(Arc::new(vec![]), Arc::new(vec![]), 0, ErrorKind::WouldBlock);
        l.take = take;
        l.push_back = push_back;
        l
    }
}
impl Read for Lean {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.seg < self.cuts.len() && self.pos == self.cuts[self.seg] {
            self.seg += 1;
            self.left = self.waits;
        }
        if self.seg == self.cuts.len() {
            return Ok(0);
        }
        if self.left > 0 {
            self.left -= 1;
            return Err(self.kind.into());
        }
        let n = b.len().min(self.cuts[self.seg] - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Lean {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if self.push_back {
            self.blocked = !self.blocked;
            if self.blocked {
                return Err(ErrorKind::WouldBlock.into());
            }
        }
        let n = b.len().min(self.take);
        self.written += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Lean {
    // as real sockets do (clearing the buffer before every read is the transport's own work)
    unsafe fn prepare_uninitialized_buffer(&self, _: &mut [u8]) -> bool {
        false
    }
}
impl AsyncWrite for Lean {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        Ok(Async::Ready(()))
    }
}

// ------------------------------------------------------------------ what is received
#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    /// one message in many small fragments
    Fragments,
    /// the same with control frames between them
    Interleaved,
    /// many small messages
    Small,
    /// messages of one big frame each
    Big,
    /// big fragments
    BigFragments,
}
const SHAPES: [Shape; 5] = [Shape::Fragments, Shape::Interleaved, Shape::Small, Shape::Big, Shape::BigFragments];
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    /// in reads as large as the reader likes
    Whole,
    /// in large segments, waiting before each
    Segments,
    /// in tiny segments without waiting
    Pieces,
    /// in tiny segments with waits
    Dribble,
    /// half of it at once, then waits and waits
    Stalled,
}
const HOWS: [How; 5] = [How::Whole, How::Segments, How::Pieces, How::Dribble, How::Stalled];
#[derive(Clone, Copy, PartialEq, Debug)]
enum By {
    Client,
    ClientIter,
    ClientFrames,
    Reader,
    Receiver,
    Codec,
    Framed,
    FramedSplit,
    FrameCodec,
}
const BYS: [By; 9] = [
    By::Client,
    By::ClientIter,
    By::ClientFrames,
    By::Reader,
    By::Receiver,
    By::Codec,
    By::Framed,
    By::FramedSplit,
    By::FrameCodec,
];

struct Load {
    data: Arc<Vec<u8>>,
    cuts: Arc<Vec<usize>>,
    waits: usize,
    frames: usize,
    messages: usize,
    payload: usize,
}
/// `n` counts frames of small things and bytes of big ones
fn load(r: &mut Rng, shape: Shape, how: How, n: usize, masked: bool, plen: usize, piece: usize) -> Load {
    let mut data = Vec::with_capacity(n * (plen + 8));
    let (mut frames, mut messages, mut payload) = (0, 0, 0);
    let key = gen::mask_for(r, masked);
    let body = vec![b'x'; plen];
    let mut put = |fin: bool, op: u8, p: &[u8]| {
        let mut f = F::new(fin, op, p.to_vec());
        f.mask = key;
        data.extend_from_slice(&f.encode());
        frames += 1;
        payload += p.len();
        messages += (fin || op >= 8) as usize;
    };
    match shape {
        Shape::Fragments | Shape::Interleaved => {
            put(false, 1, &body);
            for i in 0..n {
                put(false, 0, &body);
                if shape == Shape::Interleaved {
                    put(true, if i % 2 == 0 { 9 } else { 10 }, &body[..plen.min(2)]);
                }
            }
            put(true, 0, &body);
        }
        Shape::Small => {
            for i in 0..n {
                put(true, 1 + (i % 2) as u8, &body);
            }
        }
        Shape::Big => {
            put(true, 2, &vec![7; n * 8]);
            put(true, 1, &body);
        }
        Shape::BigFragments => {
            for i in 0..8 {
                put(i == 7, if i == 0 { 2 } else { 0 }, &vec![7; n]);
            }
        }
    }
    let len = data.len();
    let mut cuts = vec![];
    let mut waits = 0;
    match how {
        How::Whole => {}
        How::Segments => {
            waits = 1;
            let k = (len / 200).max(1);
            cuts.extend((1..200).map(|i| i * k).filter(|c| *c < len))
        }
        How::Pieces | How::Dribble => {
            waits = if how == How::Dribble { r.range(1, 2) } else { 0 };
            let mut p = 0;
            loop {
                p += 1 + (p + piece) % piece.max(1);
                if p >= len {
                    break;
                }
                cuts.push(p);
            }
        }
        How::Stalled => {
            waits = n;
            cuts.push(len / 2)
        }
    }
    cuts.push(len);
    Load { data: Arc::new(data), cuts: Arc::new(cuts), waits, frames, messages, payload }
}

struct Nobody;
impl Notify for Nobody {
    fn notify(&self, _: usize) {}
}
#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    cpu: u64,
    allocated: u64,
    calls: u64,
    transport: u64,
}
fn cpu_now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
#[derive(Default)]
struct Got {
    units: usize,
    payload: usize,
}
impl Got {
    fn msg(&mut self, m: &OwnedMessage) {
        self.units += 1;
        self.payload += m.size();
    }
}
enum Seen {
    Msg(OwnedMessage),
    Frame(usize),
    Wait,
    End,
}
fn seen<T>(r: Result<T, WebSocketError>, f: impl FnOnce(T) -> Seen) -> Result<Seen, Fail> {
    match r {
        Ok(t) => Ok(f(t)),
        Err(WebSocketError::NoDataAvailable) => Ok(Seen::End),
        Err(WebSocketError::IoError(ref e)) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => Ok(Seen::Wait),
        // what is delivered and refused is judged elsewhere
        Err(e) => Err(Fail::H(format!("elsewhere: {}", recv::errclass(&e)))),
    }
}
fn take_all(got: &mut Got, calls: &mut u64, mut next: impl FnMut() -> Result<Seen, Fail>) -> Res {
    loop {
        *calls += 1;
        match next()? {
            Seen::Msg(m) => got.msg(&m),
            Seen::Frame(n) => {
                got.units += 1;
                got.payload += n;
            }
            Seen::Wait => {}
            Seen::End => return Ok(()),
        }
    }
}
fn poll_all<S>(got: &mut Got, calls: &mut u64, s: S, take: impl Fn(&S::Item) -> (usize, usize)) -> Res
where
    S: Stream<Error = WebSocketError>,
{
    let nh = NotifyHandle::from(Arc::new(Nobody));
    let mut sp = executor::spawn(s);
    loop {
        *calls += 1;
        match sp.poll_stream_notify(&nh, 0) {
            Ok(Async::NotReady) => {}
            Ok(Async::Ready(None)) => return Ok(()),
            Ok(Async::Ready(Some(i))) => {
                let (u, p) = take(&i);
                got.units += u;
                got.payload += p;
            }
            Err(e) => return Err(Fail::H(format!("elsewhere: {}", recv::errclass(&e)))),
        }
    }
}
fn ctx(role: Role) -> MsgCodecCtx {
    match role {
        Role::Client => MsgCodecCtx::Client,
        Role::Server => MsgCodecCtx::Server,
    }
}
fn receive(l: &Load, by: By, role: Role, kind: ErrorKind) -> Result<Cost, Fail> {
    let asy = matches!(by, By::Codec | By::Framed | By::FramedSplit | By::FrameCodec);
    let mut s = Lean::new(l.data.clone(), l.cuts.clone(), l.waits, if asy { ErrorKind::WouldBlock } else { kind });
    let (min, mout) = (role.recv_masked(), role.send_masked());
    let (mut got, mut calls) = (Got::default(), 0);
    let (c0, a0) = (cpu_now(), alloc::total());
    let mut reads = 0;
    match by {
        By::Client | By::ClientFrames => {
            let mut c = Client::unchecked(BufReader::new(s), Headers::new(), mout, min);
            take_all(&mut got, &mut calls, || {
                if by == By::Client {
                    seen(c.recv_message(), Seen::Msg)
                } else {
                    seen(c.recv_dataframe(), |f| Seen::Frame(f.data.len()))
                }
            })?;
            reads += c.stream_ref().reads;
        }
        By::ClientIter => {
            let mut c = Client::unchecked(BufReader::new(s), Headers::new(), mout, min);
            {
                let mut i = c.incoming_messages();
                take_all(&mut got, &mut calls, || seen(i.next().unwrap_or(Err(WebSocketError::NoDataAvailable)), Seen::Msg))?;
            }
            reads += c.stream_ref().reads;
        }
        By::Reader => {
            let mut rd = Reader { stream: BufReader::new(s), receiver: Receiver::new(min) };
            take_all(&mut got, &mut calls, || seen(rd.recv_message(), Seen::Msg))?;
            reads += rd.stream.get_ref().reads;
        }
        By::Receiver => {
            let mut rc = Receiver::new(min);
            take_all(&mut got, &mut calls, || seen(rc.recv_message(&mut s), Seen::Msg))?;
            reads += s.reads;
        }
        By::Codec => {
            let mut codec = MessageCodec::default(ctx(role));
            let mut b = BytesMut::new();
            let mut p = 0;
            for &cut in l.cuts.iter() {
                b.extend_from_slice(&l.data[p..cut]);
                p = cut;
                for _ in 0..1 + l.waits {
                    loop {
                        calls += 1;
                        match codec.decode(&mut b) {
                            Ok(Some(m)) => got.msg(&m),
                            Ok(None) => break,
                            Err(e) => return Err(Fail::H(format!("elsewhere: {}", recv::errclass(&e)))),
                        }
                    }
                }
            }
        }
        By::Framed => {
            let f = MessageCodec::default(ctx(role)).framed(s);
            poll_all(&mut got, &mut calls, f, |m| (1, m.size()))?;
        }
        By::FramedSplit => {
            let (_sink, f) = MessageCodec::default(ctx(role)).framed(s).split();
            poll_all(&mut got, &mut calls, f, |m| (1, m.size()))?;
        }
        By::FrameCodec => {
            let codec: websocket::codec::ws::DataFrameCodec<websocket::dataframe::DataFrame> = websocket::codec::ws::DataFrameCodec::default(ctx(role));
            let f = tokio_codec::FramedRead::new(s, codec);
            poll_all(&mut got, &mut calls, f, |d| (1, d.data.len()))?;
        }
    }
    let cost = Cost { cpu: cpu_now() - c0, allocated: alloc::total() - a0, calls, transport: reads };
    let units = if matches!(by, By::ClientFrames | By::FrameCodec) { l.frames } else { l.messages };
    if got.units != units || got.payload != l.payload {
        return Err(Fail::H(format!("elsewhere: {} units, {} bytes of {}, {}", got.units, got.payload, units, l.payload)));
    }
    Ok(cost)
}

// ------------------------------------------------------------------ what is sent
#[derive(Clone, Copy, PartialEq, Debug)]
enum Via {
    Client,
    ClientFrames,
    Writer,
    Sender,
    Codec,
    Framed,
    FramedSplit,
}
const VIAS: [Via; 7] = [Via::Client, Via::ClientFrames, Via::Writer, Via::Sender, Via::Codec, Via::Framed, Via::FramedSplit];

fn sink_all<S>(s: &mut S, msgs: &[OwnedMessage], calls: &mut u64) -> Res
where
    S: Sink<SinkItem = OwnedMessage, SinkError = WebSocketError>,
{
    let nh = NotifyHandle::from(Arc::new(Nobody));
    let err = |e: WebSocketError| Fail::H(format!("elsewhere: {}", recv::errclass(&e)));
    let mut sp = executor::spawn(s);
    for m in msgs {
        let mut m = m.clone();
        loop {
            *calls += 1;
            match sp.start_send_notify(m, &nh, 0).map_err(err)? {
                AsyncSink::Ready => break,
                AsyncSink::NotReady(back) => m = back,
            }
        }
    }
    loop {
        *calls += 1;
        if let Async::Ready(()) = sp.poll_flush_notify(&nh, 0).map_err(err)? {
            return Ok(());
        }
    }
}
fn send(msgs: &[OwnedMessage], via: Via, role: Role, take: usize, push_back: bool) -> Result<Cost, Fail> {
    let asy = matches!(via, Via::Framed | Via::FramedSplit);
    let mut s = Lean::sink(take, push_back && asy);
    let (min, mout) = (role.recv_masked(), role.send_masked());
    let mut calls = 0;
    let err = |e: WebSocketError| Fail::H(format!("elsewhere: {}", recv::errclass(&e)));
    let (c0, a0) = (cpu_now(), alloc::total());
    let (writes, written);
    match via {
        Via::Client | Via::ClientFrames => {
            let mut c = Client::unchecked(BufReader::new(s), Headers::new(), mout, min);
            for m in msgs {
                calls += 1;
                if via == Via::Client {
                    c.send_message(m).map_err(err)?
                } else {
                    c.send_dataframe(m).map_err(err)?
                }
            }
            writes = c.stream_ref().writes;
            written = c.stream_ref().written;
        }
        Via::Writer => {
            let mut w = Writer { stream: s, sender: Sender::new(mout) };
            for m in msgs {
                calls += 1;
                w.send_message(m).map_err(err)?
            }
            writes = w.stream.writes;
            written = w.stream.written;
        }
        Via::Sender => {
            let mut w = Sender::new(mout);
            for m in msgs {
                calls += 1;
                w.send_message(&mut s, m).map_err(err)?
            }
            writes = s.writes;
            written = s.written;
        }
        Via::Codec => {
            let mut codec = MessageCodec::default(ctx(role));
            let mut b = BytesMut::new();
            for m in msgs {
                calls += 1;
                codec.encode(m.clone(), &mut b).map_err(err)?
            }
            writes = 0;
            written = b.len() as u64;
        }
        Via::Framed => {
            let mut f = MessageCodec::default(ctx(role)).framed(s);
            sink_all(&mut f, msgs, &mut calls)?;
            writes = f.get_ref().writes;
            written = f.get_ref().written;
        }
        Via::FramedSplit => {
            let (mut k, st) = MessageCodec::default(ctx(role)).framed(s).split();
            sink_all(&mut k, msgs, &mut calls)?;
            let f = match k.reunite(st) {
                Ok(f) => f,
                Err(_) => hfail!("the halves do not fit"),
            };
            writes = f.get_ref().writes;
            written = f.get_ref().written;
        }
    }
    let cost = Cost { cpu: cpu_now() - c0, allocated: alloc::total() - a0, calls, transport: writes };
    let want: usize = msgs.iter().map(|m| websocket::ws::Message::message_size(m, mout)).sum();
    if written != want as u64 {
        hfail!("elsewhere: {} bytes written of {}", written, want);
    }
    Ok(cost)
}

// ------------------------------------------------------------------ judging
const K: u64 = 16;
/// growth beyond proportional that is still put down to caches, buffers and noise
const SLACK: u64 = 4;
const FLOOR_NS: u64 = 400_000_000;
fn judge(c: &mut Case, what: &str, mut cost: impl FnMut(usize) -> Result<Cost, Fail>, n: usize) -> Res {
    let mut seen = vec![];
    for _ in 0..3 {
        let r = cost(n).and_then(|a| cost(n * K as usize).map(|b| (a, b)));
        let (a, b) = match r {
            Ok(x) => x,
            Err(Fail::H(s)) if s.starts_with("elsewhere") => {
                c.ev("judged_elsewhere", 1);
                return Ok(());
            }
            Err(e) => return Err(e),
        };
        if std::env::var("WSMON_TRACE").is_ok() {
            eprintln!("{}: {:?} -> {:?}", what, a, b);
        }
        c.ev("measurements", 2);
        for (name, x, y, floor) in [
            ("bytes allocated", a.allocated, b.allocated, 4_000_000),
            ("calls", a.calls, b.calls, 100_000),
            ("reads or writes of the transport", a.transport, b.transport, 100_000),
        ] {
            ensure!(
                y <= floor || y <= x.saturating_mul(K * SLACK),
                "{}: {} times as much traffic costs {} instead of {} {}",
                what,
                K,
                y,
                x,
                name
            );
        }
        if b.cpu <= FLOOR_NS || b.cpu <= a.cpu * K * SLACK {
            c.ev("shapes_proportional", 1);
            return Ok(());
        }
        seen.push((a.cpu / 1_000_000, b.cpu / 1_000_000));
    }
    viol!("{}: {} times as much traffic costs (ms) {:?}", what, K, seen)
}

fn receiving(c: &mut Case) -> Res {
    let i = c.idx as usize;
    let by = BYS[i % BYS.len()];
    let shape = SHAPES[i / BYS.len() % SHAPES.len()];
    let how = HOWS[i / BYS.len() / SHAPES.len() % HOWS.len()];
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let plen = *c.rng.pick(&[0, 1, 2, 5, 20, 100]);
    let small = !matches!(shape, Shape::Big | Shape::BigFragments);
    let piece = if small { *c.rng.pick(&[1, 3, 7, 20]) } else { *c.rng.pick(&[8, 16, 40]) };
    let kind = *c.rng.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut]);
    let n = if small && plen == 100 && matches!(how, How::Pieces | How::Dribble) && piece < 4 { 3000 } else { 8000 };
    let what = format!("{:?} receiving {:?} {:?} by {:?}, payload {}, pieces up to {}, {:?}", role, shape, how, by, plen, piece, kind);
    c.note(what.clone());
    let seed = c.rng.u64();
    judge(
        c,
        &what,
        |n| {
            let mut r = Rng::new(seed);
            let l = load(&mut r, shape, how, n, role.recv_masked(), plen, piece);
            receive(&l, by, role, kind)
        },
        n,
    )?;
    c.seen("ways_of_receiving", (i % (BYS.len() * SHAPES.len() * HOWS.len())) as u64);
    c.eval(seed);
    c.sample(|| what.clone());
    Ok(())
}
fn sending(c: &mut Case) -> Res {
    let i = c.idx as usize;
    let via = VIAS[i % VIAS.len()];
    let way = i / VIAS.len() % 4;
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let big = way % 2 == 1;
    let plen = *c.rng.pick(&[0, 1, 5, 50, 125, 126]);
    let take = *c.rng.pick(if big { &[7usize, 100, 5000, usize::MAX] } else { &[1usize, 5, 100, usize::MAX] });
    let text = c.rng.chance(1, 2);
    let what = format!("{:?} sending {} via {:?}, payload {}, {} bytes a write, way {}, text {}", role, if big { "big" } else { "small" }, via, plen, take, way, text);
    c.note(what.clone());
    judge(
        c,
        &what,
        |n| {
            let m = |k: usize| if text { OwnedMessage::Text("y".repeat(k)) } else { OwnedMessage::Binary(vec![9; k]) };
            let msgs: Vec<OwnedMessage> = if big { vec![m(n * 30), m(plen), m(n * 30)] } else { (0..n).map(|_| m(plen)).collect() };
            send(&msgs, via, role, take, way >= 2)
        },
        4000,
    )?;
    c.seen("ways_of_sending", (i % (VIAS.len() * 4)) as u64);
    c.eval(c.idx);
    c.sample(|| what.clone());
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("the same traffic at n and at 16n (sizes, segmentations, waits, interfaces, roles varied); the thread's processor time, bytes allocated, calls needed and transport calls may grow at most 64-fold; processor time below 0.4 s is not judged, and must exceed it in three attempts");
    x.assume("the thread's CPU clock measures the work done by the thread; handshake parsing is hyper's and not judged");
    let m = (BYS.len() * SHAPES.len() * HOWS.len()) as u64;
    x.run_t("receiving", x.q(m, m * 6), x.threads.min(4), receiving);
    x.run_t("sending", x.q((VIAS.len() * 4 * 4) as u64, (VIAS.len() * 4 * 20) as u64), x.threads.min(4), sending);
    x.need("shapes_proportional", 200);
}
