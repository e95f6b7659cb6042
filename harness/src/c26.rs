//! C26: all ways of using one connection share one position in each direction.
use crate::core::*;
use crate::exec::{drive_fn, D};
use crate::gen;
use crate::recv::{self, ctx_of, errclass, Opts};
use crate::send::{as_df, owned_cow, sink_all};
use crate::stream::*;
use crate::wire::*;
use bytes::BytesMut;
use futures::Stream as _;
use std::io::{ErrorKind, Read, Write};
use tokio_codec::{Decoder, Encoder, Framed};
use websocket::codec::ws::DataFrameCodec;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::r#async::MessageCodec;
use websocket::receiver::Reader;
use websocket::sender::Writer;
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::{OwnedMessage, WebSocketError};

/// A piece of one direction of the connection.
#[derive(Clone, Debug)]
enum U {
    Msg(M, Vec<F>),
    Frame(F),
    Raw(Vec<u8>),
}
impl U {
    fn bytes(&self) -> Vec<u8> {
        match self {
            U::Msg(_, f) => encode_all(f),
            U::Frame(f) => f.encode(),
            U::Raw(b) => b.clone(),
        }
    }
    fn short(&self) -> String {
        match self {
            U::Msg(m, f) => format!("{}/{}", m.short(), f.len()),
            U::Frame(f) => f.short(),
            U::Raw(b) => format!("raw[{}]", b.len()),
        }
    }
}
fn pick_size(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => r.range(120, 130),
        2 => r.range(1, 3000),
        3 if r.chance(1, 10) => r.range(65_530, 65_540),
        _ => r.below(60),
    }
}
fn frame(r: &mut Rng, masked: bool) -> F {
    let op = *r.pick(&[0u8, 1, 2, 8, 9, 10]);
    let n = pick_size(r);
    let mut f = F::new(r.chance(2, 3) || op >= 8, op, r.bytes(if op >= 8 { n.min(125) } else { n })).masked(gen::mask_for(r, masked));
    if r.chance(1, 3) {
        f.rsv = r.below(8) as u8;
    }
    f
}
fn unit(r: &mut Rng, masked: bool) -> U {
    match r.below(5) {
        0 => U::Frame(frame(r, masked)),
        1 => {
            let n = pick_size(r);
            U::Raw(if r.chance(1, 3) { frame(r, masked).encode() } else { r.bytes(n.max(1)) })
        }
        _ => {
            let m = gen::msg(r, false);
            let (fs, _) = gen::fragmented(r, &[m.clone()], masked, 5, 0);
            U::Msg(m, fs)
        }
    }
}
fn df_of(d: &DataFrame) -> (bool, u8, u8, Vec<u8>) {
    let r = d.reserved;
    (d.finished, (r[0] as u8) << 2 | (r[1] as u8) << 1 | r[2] as u8, d.opcode as u8, d.data.clone())
}
fn df_want(f: &F) -> (bool, u8, u8, Vec<u8>) {
    (f.fin, f.rsv, f.op, f.payload.clone())
}
fn mk_df(f: &F) -> DataFrame {
    let mut d = DataFrame::new(f.fin, Opcode::new(f.op).unwrap(), f.payload.clone());
    d.reserved = [f.rsv & 4 != 0, f.rsv & 2 != 0, f.rsv & 1 != 0];
    d
}
fn wait<T>(e: WebSocketError, what: &str) -> Result<Option<T>, Fail> {
    match &e {
        WebSocketError::IoError(x) if matches!(x.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => Ok(None),
        _ => Err(Fail::V(format!("{}: {}", what, errclass(&e)))),
    }
}
/// the blocking connection, whole or split
enum C {
    Whole(websocket::sync::Client<Scripted>),
    Split(Reader<Scripted>, Writer<Scripted>),
}
impl C {
    fn msg(&mut self, how: usize, what: &str) -> Result<M, Fail> {
        loop {
            let r = match (&mut *self, how % 3) {
                (C::Whole(c), 0) => c.recv_message(),
                (C::Whole(c), _) => match c.incoming_messages().next() {
                    Some(x) => x,
                    None => viol!("{}: the message iterator ended", what),
                },
                (C::Split(r, _), 0) => r.recv_message(),
                (C::Split(r, _), _) => match r.incoming_messages().next() {
                    Some(x) => x,
                    None => viol!("{}: the message iterator ended", what),
                },
            };
            match r {
                Ok(m) => return Ok(M::of(&m)),
                Err(e) => wait::<()>(e, what)?,
            };
        }
    }
    fn frame(&mut self, how: usize, what: &str) -> Result<DataFrame, Fail> {
        loop {
            let r = match (&mut *self, how % 2) {
                (C::Whole(c), 0) => c.recv_dataframe(),
                (C::Whole(c), _) => match c.incoming_dataframes().next() {
                    Some(x) => x,
                    None => viol!("{}: the frame iterator ended", what),
                },
                (C::Split(r, _), 0) => r.recv_dataframe(),
                (C::Split(r, _), _) => match r.incoming_dataframes().next() {
                    Some(x) => x,
                    None => viol!("{}: the frame iterator ended", what),
                },
            };
            match r {
                Ok(m) => return Ok(m),
                Err(e) => wait::<()>(e, what)?,
            };
        }
    }
    fn raw(&mut self, r: &mut Rng, n: usize, what: &str) -> Result<Vec<u8>, Fail> {
        let mut v = vec![];
        while v.len() < n {
            let k = if r.chance(1, 2) { n - v.len() } else { r.range(1, n - v.len()) };
            let mut b = vec![0u8; k];
            let x = match self {
                C::Whole(c) => c.reader_mut().read(&mut b),
                C::Split(c, _) => c.stream.read(&mut b),
            };
            match x {
                Ok(0) => viol!("{}: the raw reader is at its end after {} of {} bytes", what, v.len(), n),
                Ok(k) => v.extend_from_slice(&b[..k]),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
                Err(e) => viol!("{}: {}", what, e),
            }
        }
        Ok(v)
    }
    fn send(&mut self, u: &U, how: usize) -> Result<(), WebSocketError> {
        match (self, u) {
            (C::Whole(c), U::Msg(m, _)) => match how % 3 {
                0 => c.send_message(&m.owned()),
                1 => c.send_message(&owned_cow(m)),
                _ => c.send_dataframe(&as_df(m)),
            },
            (C::Split(_, w), U::Msg(m, _)) => match how % 3 {
                0 => w.send_message(&m.owned()),
                1 => w.send_message(&owned_cow(m)),
                _ => w.send_dataframe(&as_df(m)),
            },
            (C::Whole(c), U::Frame(f)) => c.send_dataframe(&mk_df(f)),
            (C::Split(_, w), U::Frame(f)) => w.send_dataframe(&mk_df(f)),
            (C::Whole(c), U::Raw(b)) => c.writer_mut().write_all(b).map_err(WebSocketError::from),
            (C::Split(_, w), U::Raw(b)) => w.stream.write_all(b).map_err(WebSocketError::from),
        }
    }
}
/// what one sending call put on the wire
fn written(what: &str, u: &U, masked: bool, b: &[u8]) -> Res {
    let (fin, rsv, op, p) = match u {
        U::Raw(r) => {
            ensure!(b == &r[..], "{}: raw bytes {} reached the wire as {}", what, hex(r), hex(b));
            return Ok(());
        }
        U::Msg(m, _) => (true, 0, m.op(), m.payload()),
        U::Frame(f) => df_want(f),
    };
    match parse_one(b) {
        Some((f, n)) if n == b.len() => {
            ensure!(f.fin == fin && f.rsv == rsv && f.op == op && f.payload == p && f.mask.is_some() == masked, "{}: {} reached the wire as {}", what, u.short(), f.short());
            Ok(())
        }
        x => viol!("{}: {} reached the wire as {} bytes that are not one frame ({:?})", what, u.short(), b.len(), x.map(|x| (x.0.short(), x.1))),
    }
}
fn read_script(c: &mut Case, units: &[U], kinds: &[ErrorKind]) -> Vec<Step> {
    let mut all = vec![];
    let mut bounds = vec![];
    for u in units {
        all.extend(u.bytes());
        bounds.push(all.len());
    }
    if all.is_empty() {
        return vec![];
    }
    let (steps, _) = gen::segment(&mut c.rng, &all, &bounds);
    if c.rng.chance(1, 2) {
        gen::with_waits(&mut c.rng, steps, kinds, 1, 3)
    } else {
        steps
    }
}
fn blocking(c: &mut Case) -> Res {
    let role = if c.idx % 2 == 0 { Role::Client } else { Role::Server };
    let n = c.rng.range(3, 12);
    let units: Vec<U> = (0..n).map(|_| unit(&mut c.rng, role.recv_masked())).collect();
    let steps = read_script(c, &units, &[ErrorKind::WouldBlock, ErrorKind::TimedOut]);
    let o = Opts { variant: c.rng.below(6), ..Opts::new(role) };
    let glue = c.rng.chance(1, 2);
    let s = Scripted::new(recv::with_handshake(role, steps, glue), End::Eof);
    if c.rng.chance(1, 2) {
        let mut p = vec![];
        for _ in 0..c.rng.range(1, 5) {
            p.push(W::Accept(c.rng.range(1, 40)));
        }
        let _ = &p;
        s.l().wplan = p;
    }
    let mut conn = C::Whole(recv::sync_conn(s.clone(), &o)?);
    let id = s.id();
    let split_at = if c.rng.chance(1, 2) { c.rng.below(n + 1) } else { n + 1 };
    let mut log = vec![];
    for (i, u) in units.iter().enumerate() {
        if i == split_at {
            conn = match conn {
                C::Whole(x) => {
                    let (r, w) = match x.split() {
                        Ok(x) => x,
                        Err(e) => viol!("split: {}", e),
                    };
                    C::Split(r, w)
                }
                x => x,
            };
            log.push("split".to_string());
            c.ev("splits", 1);
        }
        // a few sends in between
        for _ in 0..c.rng.below(3) {
            let w = unit(&mut c.rng, false);
            let how = c.rng.below(6);
            let before = s.l().out.len();
            let pos = s.consumed();
            log.push(format!("send{} {}", how, w.short()));
            c.note(log.join(", "));
            let r = conn.send(&w, how);
            if let Err(e) = r {
                viol!("{:?} after {:?}: sending failed with {}", role, log, errclass(&e));
            }
            let out = s.out()[before..].to_vec();
            written(&format!("{:?} after {:?}", role, log), &w, role.send_masked(), &out)?;
            ensure!(s.consumed() == pos, "{:?} after {:?}: sending read {} bytes", role, log, s.consumed() - pos);
            c.ev("sent", 1);
        }
        if let C::Whole(x) = &mut conn {
            if c.rng.chance(1, 3) {
                // looking changes nothing
                let a = s.consumed();
                let b = s.l().out.len();
                ensure!(x.stream_ref().id() == id, "stream_ref names another stream");
                let _ = (x.headers().len(), x.protocols().len(), x.extensions().len());
                drop(x.incoming_messages());
                drop(x.incoming_dataframes());
                let _ = x.writer_mut();
                let a2 = s.consumed();
                let b2 = s.l().out.len();
                ensure!((a, b) == (a2, b2), "{:?} after {:?}: looking moved the stream", role, log);
                c.ev("looks", 1);
            }
        }
        let out = s.l().out.len();
        let how = c.rng.below(6);
        log.push(format!("read{} {}", how, u.short()));
        c.note(log.join(", "));
        let what = format!("{:?} after {:?}", role, log);
        match u {
            U::Msg(m, fs) => {
                if how < 4 {
                    let got = conn.msg(how, &what)?;
                    ensure!(got == *m, "{}: received {}", what, got.short());
                    c.ev("messages", 1);
                } else {
                    for f in fs {
                        let d = conn.frame(how, &what)?;
                        ensure!(df_of(&d) == df_want(f), "{}: received the frame {:?} for {}", what, d.opcode, f.short());
                    }
                    c.ev("messages_by_frames", 1);
                }
            }
            U::Frame(f) => {
                let d = conn.frame(how, &what)?;
                ensure!(df_of(&d) == df_want(f), "{}: received the frame {:?}[{}] for {}", what, d.opcode, d.data.len(), f.short());
                c.ev("frames", 1);
            }
            U::Raw(b) => {
                let got = conn.raw(&mut c.rng, b.len(), &what)?;
                ensure!(got == *b, "{}: the raw reader gave {} instead of {}", what, hex(&got), hex(b));
                c.ev("raw", 1);
            }
        }
        ensure!(s.l().out.len() == out, "{}: receiving wrote {}", what, hex(&s.out()[out..]));
        // taking the connection apart early
        if i + 1 < n && c.rng.chance(1, 12) {
            if let C::Whole(_) = &conn {
                let x = match conn {
                    C::Whole(x) => x,
                    _ => unreachable!(),
                };
                let (st, b) = x.into_stream();
                ensure!(st.id() == id, "{}: into_stream gave another stream", what);
                let mut left = b.map(|(buf, a, b)| buf[a.min(b)..a.max(b)].to_vec()).unwrap_or_default();
                left.extend(s.unread());
                let want: Vec<u8> = units[i + 1..].iter().flat_map(|u| u.bytes()).collect();
                ensure!(left == want, "{}: into_stream left {} bytes, {} follow", what, left.len(), want.len());
                c.ev("taken_apart", 1);
                break;
            }
        }
    }
    c.eval(hash_s(&log.join(",")) ^ hash(&s.out()));
    c.sample(|| format!("{:?}: {}", role, log.join(", ")));
    Ok(())
}

/// takes exactly so many bytes
struct Exact(usize);
impl Decoder for Exact {
    type Item = Vec<u8>;
    type Error = std::io::Error;
    fn decode(&mut self, b: &mut BytesMut) -> Result<Option<Vec<u8>>, std::io::Error> {
        Ok(if b.len() >= self.0 { Some(b.split_to(self.0).to_vec()) } else { None })
    }
}
impl Encoder for Exact {
    type Item = Vec<u8>;
    type Error = std::io::Error;
    fn encode(&mut self, x: Vec<u8>, b: &mut BytesMut) -> Result<(), std::io::Error> {
        b.extend_from_slice(&x);
        Ok(())
    }
}
type DC = DataFrameCodec<Box<dyn DataFrameTrait>>;
enum A {
    Msg(Framed<Scripted, MessageCodec<OwnedMessage>>),
    Frame(Framed<Scripted, DC>),
    Raw(Framed<Scripted, Exact>),
    None,
}
fn to<X>(a: A, x: X) -> Framed<Scripted, X> {
    use websocket_base::ws::util::update_framed_codec;
    match a {
        A::Msg(f) => update_framed_codec(f, x),
        A::Frame(f) => update_framed_codec(f, x),
        A::Raw(f) => update_framed_codec(f, x),
        A::None => unreachable!(),
    }
}
fn done<T, E: std::fmt::Debug>(d: D<Option<T>, E>, what: &str) -> Result<T, Fail> {
    match d {
        D::Done(Some(x)) => Ok(x),
        D::Done(None) => viol!("{}: the stream ended", what),
        D::Err(e) => viol!("{}: {:?}", what, e),
        D::Idle => viol!("{}: stalled", what),
    }
}
fn asynchronous(c: &mut Case) -> Res {
    let role = if c.idx % 2 == 0 { Role::Client } else { Role::Server };
    let n = c.rng.range(3, 12);
    let units: Vec<U> = (0..n).map(|_| unit(&mut c.rng, role.recv_masked())).collect();
    let steps = read_script(c, &units, &[ErrorKind::WouldBlock]);
    let o = Opts { variant: c.rng.below(6), ..Opts::new(role) };
    let glue = c.rng.chance(1, 2);
    let s = Scripted::new(recv::with_handshake(role, steps, glue), End::Eof);
    let ss = [s.clone().asy()];
    let mut conn = A::Msg(recv::async_conn(s.clone(), &o)?);
    let (wp, fp) = gen::wplan(&mut c.rng, true);
    {
        let mut l = s.l();
        l.wplan = wp;
        l.fplan = fp;
        l.wi = 0;
        l.fi = 0;
    }
    let mut log = vec![];
    for u in units.iter() {
        let sends = c.rng.below(3);
        for k in 0..sends + 1 {
            let reading = k == sends;
            let w = if reading { u.clone() } else { unit(&mut c.rng, false) };
            let by_frames = c.rng.chance(1, 3);
            log.push(format!("{} {}", if reading { "read" } else { "send" }, w.short()));
            c.note(log.join(", "));
            let what = format!("{:?} after {:?}", role, log);
            let out0 = s.l().out.len();
            // the right codec for the unit; the same kind may stay in place
            conn = match (&w, conn) {
                (U::Msg(..), A::Msg(f)) if !by_frames => A::Msg(f),
                (U::Msg(..), x) if !by_frames => A::Msg(to(x, MessageCodec::default(ctx_of(role)))),
                (U::Raw(b), x) => A::Raw(to(x, Exact(b.len()))),
                (_, A::Frame(f)) => A::Frame(f),
                (_, x) => A::Frame(to(x, DC::new(ctx_of(role)))),
            };
            if reading {
                match (&mut conn, &w) {
                    (A::Msg(f), U::Msg(m, _)) => {
                        let got = M::of(&done(drive_fn(|| f.poll(), &ss)?, &what)?);
                        ensure!(got == *m, "{}: received {}", what, got.short());
                        c.ev("async_messages", 1);
                    }
                    (A::Frame(f), w) => {
                        let fs = match w {
                            U::Msg(_, fs) => fs.clone(),
                            U::Frame(f) => vec![f.clone()],
                            _ => unreachable!(),
                        };
                        for x in &fs {
                            let d = done(drive_fn(|| f.poll(), &ss)?, &what)?;
                            ensure!(df_of(&d) == df_want(x), "{}: received the frame {:?}[{}] for {}", what, d.opcode, d.data.len(), x.short());
                        }
                        c.ev("async_frames", 1);
                    }
                    (A::Raw(f), U::Raw(b)) => {
                        let got = done(drive_fn(|| f.poll(), &ss)?, &what)?;
                        ensure!(got == *b, "{}: the stream gave {} instead of {}", what, hex(&got), hex(b));
                        c.ev("async_raw", 1);
                    }
                    _ => unreachable!(),
                }
                ensure!(s.l().out.len() == out0, "{}: receiving wrote {}", what, hex(&s.out()[out0..]));
            } else {
                let pos = s.consumed();
                let r = match (&mut conn, &w) {
                    (A::Msg(f), U::Msg(m, _)) => sink_all(f, vec![m.owned()], &s, 0)?.pop().unwrap().0,
                    (A::Frame(f), U::Msg(m, _)) => {
                        let b: Box<dyn DataFrameTrait> = if c.rng.chance(1, 2) { Box::new(m.owned()) } else { Box::new(as_df(m)) };
                        sink_all(f, vec![b], &s, 0)?.pop().unwrap().0
                    }
                    (A::Frame(f), U::Frame(x)) => {
                        let b: Box<dyn DataFrameTrait> = Box::new(mk_df(x));
                        sink_all(f, vec![b], &s, 0)?.pop().unwrap().0
                    }
                    (A::Raw(f), U::Raw(b)) => {
                        let mut slot = Some(b.clone());
                        match drive_fn(
                            || {
                                use futures::{Async, AsyncSink, Sink};
                                match slot.take() {
                                    Some(x) => match f.start_send(x)? {
                                        AsyncSink::Ready => f.poll_complete(),
                                        AsyncSink::NotReady(x) => {
                                            slot = Some(x);
                                            Ok(Async::NotReady)
                                        }
                                    },
                                    None => f.poll_complete(),
                                }
                            },
                            &ss,
                        )? {
                            D::Done(()) => Ok(()),
                            D::Err(e) => Err(e.to_string()),
                            D::Idle => viol!("{}: stalled", what),
                        }
                    }
                    _ => unreachable!(),
                };
                if let Err(e) = r {
                    viol!("{}: sending failed with {}", what, e);
                }
                let out = s.out()[out0..].to_vec();
                written(&what, &w, role.send_masked(), &out)?;
                ensure!(s.consumed() == pos, "{}: sending read {} bytes", what, s.consumed() - pos);
                c.ev("async_sent", 1);
            }
        }
    }
    let _ = std::mem::replace(&mut conn, A::None);
    c.eval(hash_s(&log.join(",")) ^ hash(&s.out()));
    c.sample(|| format!("async {:?}: {}", role, log.join(", ")));
    Ok(())
}
pub fn run(x: &Ctx) {
    x.scale(2);
    x.rule("a case lets the peer send a generated sequence of messages (whole or fragmented), single frames of any kind and raw bytes under generated read segmentations with waits, and reads each with a randomly chosen fitting interface (recv_message, message iterator, recv_dataframe, frame iterator, raw reader; asynchronously by exchanging the codec), mixing in sends by every interface, looks at the connection, splitting and dismantling; every unit must come out once, in order, unchanged, every send must put exactly its own bytes on the wire at that moment, receiving writes nothing and sending reads nothing; distinct by operation history and bytes written");
    x.assume("interfaces are exchanged between whole messages, as a frame stream and a message stream in the middle of one fragmented message mean different things");
    x.run("blocking", x.q(40_000, 1_200_000), blocking);
    x.run("asynchronous", x.q(30_000, 900_000), asynchronous);
    for n in ["messages", "messages_by_frames", "frames", "raw", "sent", "looks", "splits", "async_messages", "async_frames", "async_raw", "async_sent"] {
        x.need(n, 5_000);
    }
    x.need("taken_apart", 500);
}
