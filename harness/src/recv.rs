//! Uniform driver over every receive interface of the library.
use crate::core::{guard, Fail};
use crate::exec::{drive, drive_fn, D};
use crate::hs;
use crate::stream::*;
use crate::wire::*;
use bytes::BytesMut;
use futures::{Async, Stream as _};
use hyper::buffer::BufReader;
use std::io::ErrorKind;
use tokio_codec::Decoder;
use websocket::r#async::MsgCodecCtx;
use websocket::r#async::MessageCodec;
use websocket::receiver::{Reader, Receiver};
use websocket::stream::sync::ReadWritePair;
use websocket::ws::Message as _;
use websocket::ws::Receiver as _;
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum RK {
    Receiver,
    ReceiverIter,
    Reader,
    ReaderIter,
    Client,
    ClientIter,
    ClientSplit,
    /// frames taken one by one and assembled with from_dataframes by the caller is covered elsewhere (C11)
    Codec,
    Framed,
    FramedSplit,
    AsyncClient,
    AsyncClientSplit,
    /// Receiver::recv_message_dataframes, assembled with Message::from_dataframes
    Frames,
    PairReceiver,
    PairClient,
    PairFramed,
}
pub const ALL: [RK; 16] = [
    RK::Receiver,
    RK::ReceiverIter,
    RK::Reader,
    RK::ReaderIter,
    RK::Client,
    RK::ClientIter,
    RK::ClientSplit,
    RK::Codec,
    RK::Framed,
    RK::FramedSplit,
    RK::AsyncClient,
    RK::AsyncClientSplit,
    RK::Frames,
    RK::PairReceiver,
    RK::PairClient,
    RK::PairFramed,
];
impl RK {
    pub fn is_async(self) -> bool {
        matches!(self, RK::Codec | RK::Framed | RK::FramedSplit | RK::AsyncClient | RK::AsyncClientSplit | RK::PairFramed)
    }
    pub fn has_handshake(self) -> bool {
        matches!(self, RK::Client | RK::ClientIter | RK::ClientSplit | RK::AsyncClient | RK::AsyncClientSplit | RK::PairClient)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Msg(M),
    /// receive reported an error (class)
    Err(String),
    /// asynchronous stream ended cleanly
    End,
    /// blocking receive reported would-block / timed out / interrupted
    Wait(String),
    /// nothing more will ever arrive
    Idle,
}
impl Ev {
    pub fn short(&self) -> String {
        match self {
            Ev::Msg(m) => m.short(),
            o => format!("{:?}", o),
        }
    }
}
pub fn evs(v: &[Ev]) -> String {
    let s: Vec<String> = v.iter().take(40).map(|m| m.short()).collect();
    format!("[{}]{}", s.join(", "), if v.len() > 40 { format!("..{}", v.len()) } else { String::new() })
}
pub fn errclass(e: &WebSocketError) -> String {
    match e {
        WebSocketError::ProtocolError(s) => format!("Protocol({})", s),
        WebSocketError::DataFrameError(s) => format!("DataFrame({})", s),
        WebSocketError::NoDataAvailable => "NoData".into(),
        WebSocketError::IoError(e) => format!("Io({:?}:{})", e.kind(), e),
        WebSocketError::Utf8Error(_) => "Utf8".into(),
        WebSocketError::Other(e) => format!("Other({})", e),
    }
}
fn is_wait(e: &WebSocketError) -> Option<ErrorKind> {
    match e {
        WebSocketError::IoError(e) => match e.kind() {
            ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted => Some(e.kind()),
            _ => None,
        },
        _ => None,
    }
}

#[derive(Clone)]
pub struct Opts {
    pub role: Role,
    /// (frame limit, message limit)
    pub limits: Option<(usize, usize)>,
    /// read attempts made after the first error / end
    pub extra: usize,
    pub max_events: usize,
    /// which of the equivalent ways of configuring / accepting to use
    pub variant: usize,
    pub read_cap: usize,
}
impl Opts {
    pub fn new(role: Role) -> Opts {
        Opts { role, limits: None, extra: 0, max_events: 100_000, variant: 0, read_cap: usize::MAX }
    }
}

pub struct Got {
    pub evs: Vec<Ev>,
    pub stream: Scripted,
    /// events observed after the first error/end
    pub after: Vec<Ev>,
}
impl Got {
    pub fn msgs(&self) -> Vec<M> {
        self.evs
            .iter()
            .filter_map(|e| if let Ev::Msg(m) = e { Some(m.clone()) } else { None })
            .collect()
    }
    pub fn last_bad(&self) -> bool {
        matches!(self.evs.last(), Some(Ev::Err(_)))
    }
}

fn collect<F: FnMut() -> Result<Ev, Fail>>(o: &Opts, stream: Scripted, mut next: F) -> Result<Got, Fail> {
    let mut evs = vec![];
    let mut after = vec![];
    let mut ended = false;
    let mut extra = o.extra;
    loop {
        if evs.len() + after.len() >= o.max_events {
            return Err(Fail::V(format!("more than {} receive results without end of stream", o.max_events)));
        }
        let e = next()?;
        if ended {
            after.push(e);
            extra -= 1;
            if extra == 0 {
                break;
            }
            continue;
        }
        let fin = matches!(e, Ev::Err(_) | Ev::End | Ev::Idle);
        let wait = matches!(e, Ev::Wait(_));
        evs.push(e);
        if wait && stream.l().idle {
            evs.pop();
            evs.push(Ev::Idle);
            break;
        }
        if fin {
            ended = true;
            if extra == 0 {
                break;
            }
        }
    }
    Ok(Got { evs, stream, after })
}
fn sync_ev(r: Result<OwnedMessage, WebSocketError>) -> Result<Ev, Fail> {
    Ok(match r {
        Ok(m) => Ev::Msg(M::of(&m)),
        Err(e) => match is_wait(&e) {
            Some(k) => Ev::Wait(format!("{:?}", k)),
            None => Ev::Err(errclass(&e)),
        },
    })
}
fn asy_ev<T>(r: D<Option<OwnedMessage>, WebSocketError>, _t: T) -> Result<Ev, Fail> {
    Ok(match r {
        D::Done(Some(m)) => Ev::Msg(M::of(&m)),
        D::Done(None) => Ev::End,
        D::Err(e) => match is_wait(&e) {
            Some(k) => Ev::Wait(format!("{:?}", k)),
            None => Ev::Err(errclass(&e)),
        },
        D::Idle => Ev::Idle,
    })
}

pub fn ctx_of(role: Role) -> MsgCodecCtx {
    if role == Role::Server {
        MsgCodecCtx::Server
    } else {
        MsgCodecCtx::Client
    }
}

/// Blocking client/server connection over a scripted stream whose script starts with the handshake of the peer.
pub fn sync_conn(s: Scripted, o: &Opts) -> Result<websocket::sync::Client<Scripted>, Fail> {
    match o.role {
        Role::Client => {
            let mut b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(hs::KEY);
            if let Some((f, m)) = o.limits {
                b = if o.variant % 2 == 0 {
                    b.max_dataframe_size(f).max_message_size(m)
                } else {
                    b.max_message_size(m).max_dataframe_size(f)
                };
            }
            b.connect_on(s).map_err(|e| Fail::V(format!("client handshake failed on a correct response: {}", errclass(&e))))
        }
        Role::Server => {
            use websocket::server::upgrade::sync::IntoWs;
            let u = IntoWs::into_ws(s).map_err(|e| Fail::V(format!("server refused a correct request: {}", e.3)))?;
            let h = hyper::header::Headers::new();
            let r = match (o.limits, o.variant % 2) {
                (None, 0) => u.accept(),
                (None, _) => u.accept_with(&h),
                (Some((f, m)), 0) => u.accept_with_limits(f, m),
                (Some((f, m)), _) => u.accept_with_headers_and_limits(&h, f, m),
            };
            r.map_err(|e| Fail::V(format!("accept failed: {}", e.1)))
        }
    }
}
/// Same over a ReadWritePair (splittable).
pub fn sync_conn_pair(
    s: Scripted,
    o: &Opts,
) -> Result<websocket::sync::Client<ReadWritePair<Scripted, Scripted>>, Fail> {
    let p = ReadWritePair(s.clone(), s);
    match o.role {
        Role::Client => {
            let mut b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(hs::KEY);
            if let Some((f, m)) = o.limits {
                b = b.max_dataframe_size(f).max_message_size(m);
            }
            b.connect_on(p).map_err(|e| Fail::V(format!("client handshake failed on a correct response: {}", errclass(&e))))
        }
        Role::Server => {
            use websocket::server::upgrade::sync::IntoWs;
            let u = IntoWs::into_ws(p).map_err(|e| Fail::V(format!("server refused a correct request: {}", e.3)))?;
            let r = match o.limits {
                None => u.accept(),
                Some((f, m)) => u.accept_with_limits(f, m),
            };
            r.map_err(|e| Fail::V(format!("accept failed: {}", e.1)))
        }
    }
}
pub fn async_conn(s: Scripted, o: &Opts) -> Result<websocket::r#async::Client<Scripted>, Fail> {
    let s = s.asy();
    let ss = [s.clone()];
    match o.role {
        Role::Client => {
            let mut b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(hs::KEY);
            if let Some((f, m)) = o.limits {
                b = if o.variant % 2 == 0 {
                    b.max_dataframe_size(f).max_message_size(m)
                } else {
                    b.max_message_size(m).max_dataframe_size(f)
                };
            }
            match drive(b.async_connect_on(s), &ss)? {
                D::Done((c, _h)) => Ok(c),
                D::Err(e) => Err(Fail::V(format!("async client handshake failed on a correct response: {}", errclass(&e)))),
                D::Idle => Err(Fail::V("async client handshake stalled on a complete response".into())),
            }
        }
        Role::Server => {
            use websocket::server::upgrade::r#async::IntoWs;
            let u = match drive(IntoWs::into_ws(s), &ss)? {
                D::Done(u) => u,
                D::Err(e) => return Err(Fail::V(format!("async server refused a correct request: {}", e.3))),
                D::Idle => return Err(Fail::V("async server stalled on a complete request".into())),
            };
            let h = hyper::header::Headers::new();
            let f = match (o.limits, o.variant % 2) {
                (None, 0) => u.accept(),
                (None, _) => u.accept_with(&h),
                (Some((f, m)), 0) => u.accept_with_limits(f, m),
                (Some((f, m)), _) => u.accept_with_headers_and_limits(&h, f, m),
            };
            match drive(f, &ss)? {
                D::Done((c, _h)) => Ok(c),
                D::Err(e) => Err(Fail::V(format!("async accept failed: {}", errclass(&e)))),
                D::Idle => Err(Fail::V("async accept stalled".into())),
            }
        }
    }
}
pub fn handshake_bytes(role: Role) -> Vec<u8> {
    if role == Role::Client {
        hs::response()
    } else {
        hs::request()
    }
}

/// Prepend the peer's handshake to a script; `glue` joins it to the first data step.
pub fn with_handshake(role: Role, mut steps: Vec<Step>, glue: bool) -> Vec<Step> {
    let mut h = handshake_bytes(role);
    if glue {
        if let Some(Step::Data(d)) = steps.first_mut() {
            h.extend_from_slice(d);
            *d = h;
            return steps;
        }
    }
    let mut v = vec![Step::Data(h)];
    v.extend(steps);
    v
}

/// Run receive interface `k` over the script (frames only; the handshake is added as needed).
pub fn receive(k: RK, o: &Opts, steps: Vec<Step>, end: End) -> Result<Got, Fail> {
    guard(|| receive_inner(k, o, steps, end)).map_err(|e| match e {
        Fail::V(s) => Fail::V(format!("{:?}/{:?}: {}", k, o.role, s)),
        h => h,
    })
}
fn receive_inner(k: RK, o: &Opts, steps: Vec<Step>, end: End) -> Result<Got, Fail> {
    let steps = if k.has_handshake() { with_handshake(o.role, steps, o.variant % 3 == 1) } else { steps };
    let s = Scripted::new(steps, end);
    s.l().read_cap = o.read_cap;
    let masked = o.role.recv_masked();
    let mk_receiver = || match o.limits {
        None => Receiver::new(masked),
        Some((f, m)) => Receiver::new_with_limits(masked, f, m),
    };
    let mk_codec = || match o.limits {
        None => {
            if o.variant % 2 == 0 {
                MessageCodec::default(ctx_of(o.role))
            } else {
                MessageCodec::<OwnedMessage>::new(ctx_of(o.role))
            }
        }
        Some((f, m)) => MessageCodec::<OwnedMessage>::new_with_limits(ctx_of(o.role), f, m),
    };
    match k {
        RK::Receiver => {
            let mut r = mk_receiver();
            let mut s2 = s.clone();
            collect(o, s.clone(), || sync_ev(r.recv_message(&mut s2)))
        }
        RK::ReceiverIter => {
            let mut r = mk_receiver();
            let mut s2 = s.clone();
            let mut it = r.incoming_messages(&mut s2);
            collect(o, s.clone(), || match it.next() {
                Some(x) => sync_ev(x),
                None => Ok(Ev::End),
            })
        }
        RK::Frames => {
            let mut r = mk_receiver();
            let mut s2 = s.clone();
            collect(o, s.clone(), || {
                sync_ev(r.recv_message_dataframes(&mut s2).and_then(|f| websocket::Message::from_dataframes(f).map(OwnedMessage::from)))
            })
        }
        RK::PairReceiver => {
            let mut r = mk_receiver();
            let mut s2 = ReadWritePair(s.clone(), Scripted::empty());
            collect(o, s.clone(), || sync_ev(r.recv_message(&mut s2)))
        }
        RK::PairClient => {
            let mut c = sync_conn_pair(s.clone(), o)?;
            collect(o, s.clone(), || sync_ev(c.recv_message()))
        }
        RK::PairFramed => {
            let s = s.asy();
            let mut f = mk_codec().framed(ReadWritePair(s.clone(), Scripted::empty().asy()));
            let ss = [s.clone()];
            collect(o, s.clone(), || asy_ev(drive_fn(|| f.poll(), &ss)?, ()))
        }
        RK::Reader | RK::ReaderIter => {
            let mut r = Reader { stream: BufReader::new(s.clone()), receiver: mk_receiver() };
            if k == RK::Reader {
                collect(o, s.clone(), || sync_ev(r.recv_message()))
            } else {
                let mut it = r.incoming_messages();
                collect(o, s.clone(), || match it.next() {
                    Some(x) => sync_ev(x),
                    None => Ok(Ev::End),
                })
            }
        }
        RK::Client => {
            let mut c = sync_conn(s.clone(), o)?;
            collect(o, s.clone(), || sync_ev(c.recv_message()))
        }
        RK::ClientIter => {
            let mut c = sync_conn(s.clone(), o)?;
            let mut it = c.incoming_messages();
            collect(o, s.clone(), || match it.next() {
                Some(x) => sync_ev(x),
                None => Ok(Ev::End),
            })
        }
        RK::ClientSplit => {
            let c = sync_conn_pair(s.clone(), o)?;
            let (mut r, _w) = c.split().map_err(|e| Fail::V(format!("split failed: {}", e)))?;
            collect(o, s.clone(), || sync_ev(r.recv_message()))
        }
        RK::Codec => {
            // feed chunk by chunk by hand
            let mut codec = mk_codec();
            let mut buf = BytesMut::new();
            let sc = s.clone();
            let mut eof = false;
            let variant = o.variant;
            collect(o, s.clone(), move || loop {
                let r = if eof { codec.decode_eof(&mut buf) } else { codec.decode(&mut buf) };
                match r {
                    Ok(Some(m)) => return Ok(Ev::Msg(M::of(&m))),
                    Err(e) => return Ok(Ev::Err(errclass(&e))),
                    Ok(None) if eof => return Ok(Ev::End),
                    Ok(None) => {}
                }
                let step = {
                    let mut l = sc.l();
                    l.reads += 1;
                    l.steps.pop_front()
                };
                match step {
                    Some(Step::Data(d)) => {
                        if variant % 2 == 1 {
                            // fresh exact-size buffer, so the decoder cannot rely on spare capacity
                            let mut nb = BytesMut::with_capacity(buf.len() + d.len());
                            nb.extend_from_slice(&buf);
                            nb.extend_from_slice(&d);
                            buf = nb;
                        } else {
                            buf.extend_from_slice(&d)
                        }
                        sc.l().consumed += d.len();
                    }
                    Some(Step::Err(k)) => {
                        sc.l().waits += 1;
                        match k {
                            ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted => {}
                            k => return Ok(Ev::Err(format!("Io({:?})", k))),
                        }
                    }
                    None => {
                        let end = sc.l().end;
                        match end {
                            End::Eof => eof = true,
                            End::Err(k) => return Ok(Ev::Err(format!("Io({:?})", k))),
                            End::Block => return Ok(Ev::Idle),
                        }
                    }
                }
            })
        }
        RK::Framed => {
            let s = s.asy();
            let mut f = mk_codec().framed(s.clone());
            let ss = [s.clone()];
            collect(o, s.clone(), || asy_ev(drive_fn(|| f.poll(), &ss)?, ()))
        }
        RK::FramedSplit => {
            let s = s.asy();
            let (_sink, mut f) = mk_codec().framed(s.clone()).split();
            let ss = [s.clone()];
            collect(o, s.clone(), || asy_ev(drive_fn(|| f.poll(), &ss)?, ()))
        }
        RK::AsyncClient => {
            let mut f = async_conn(s.clone(), o)?;
            let ss = [s.clone()];
            collect(o, s.clone(), || asy_ev(drive_fn(|| f.poll(), &ss)?, ()))
        }
        RK::AsyncClientSplit => {
            let (_sink, mut f) = async_conn(s.clone(), o)?.split();
            let ss = [s.clone()];
            collect(o, s.clone(), || asy_ev(drive_fn(|| f.poll(), &ss)?, ()))
        }
    }
}
#[allow(dead_code)]
fn _t(_: Async<()>) {}
