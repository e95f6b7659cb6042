//! Uniform driver over every send interface of the library.
use crate::core::{guard, Fail};
use crate::exec::{drive, drive_fn, D};
use crate::recv::{self, ctx_of, errclass, Opts};
use crate::stream::*;
use crate::wire::*;
use bytes::BytesMut;
use futures::{Async, AsyncSink, Sink, Stream as _};
use std::borrow::Cow;
use tokio_codec::{Decoder, Encoder};
use websocket::codec::ws::DataFrameCodec;
use websocket::dataframe::DataFrame;
use websocket::r#async::MessageCodec;
use websocket::sender::{Sender, Writer};
use websocket::stream::sync::ReadWritePair;
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::Message as MessageTrait;
use websocket::ws::Sender as _;
use websocket::{Message, OwnedMessage, WebSocketError};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum SK {
    Sender,
    SenderDf,
    Writer,
    WriterDf,
    Client,
    ClientDf,
    ClientSplit,
    ClientSplitDf,
    Serialize,
    WriteTo,
    Codec,
    CodecMsg,
    CodecDf,
    Framed,
    FramedMsg,
    FramedDf,
    FramedSplit,
    AsyncClient,
    PairSender,
    PairClient,
    PairFramed,
}
pub const ALL: [SK; 21] = [
    SK::Sender,
    SK::SenderDf,
    SK::Writer,
    SK::WriterDf,
    SK::Client,
    SK::ClientDf,
    SK::ClientSplit,
    SK::ClientSplitDf,
    SK::Serialize,
    SK::WriteTo,
    SK::Codec,
    SK::CodecMsg,
    SK::CodecDf,
    SK::Framed,
    SK::FramedMsg,
    SK::FramedDf,
    SK::FramedSplit,
    SK::AsyncClient,
    SK::PairSender,
    SK::PairClient,
    SK::PairFramed,
];
impl SK {
    pub fn is_async_io(self) -> bool {
        matches!(self, SK::Framed | SK::FramedMsg | SK::FramedDf | SK::FramedSplit | SK::AsyncClient | SK::PairFramed)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Owned,
    Borrowed,
    OwnedCow,
}
pub const FORMS: [Form; 3] = [Form::Owned, Form::Borrowed, Form::OwnedCow];

pub fn borrowed<'a>(m: &'a M) -> Message<'a> {
    match m {
        M::Text(s) => Message::text(s.as_str()),
        M::Bin(b) => Message::binary(&b[..]),
        M::Ping(b) => Message::ping(&b[..]),
        M::Pong(b) => Message::pong(Cow::Borrowed(&b[..])),
        M::Close(None) => Message::close(),
        M::Close(Some((c, r))) => Message::close_because(*c, r.as_str()),
    }
}
pub fn owned_cow(m: &M) -> Message<'static> {
    match m {
        M::Text(s) => Message::text(s.clone()),
        M::Bin(b) => Message::binary(b.clone()),
        M::Ping(b) => Message::ping(b.clone()),
        M::Pong(b) => Message::pong(b.clone()),
        M::Close(None) => Message::close(),
        M::Close(Some((c, r))) => Message::close_because(*c, r.clone()),
    }
}
pub fn as_df(m: &M) -> DataFrame {
    let op = websocket::dataframe::Opcode::new(m.op()).unwrap();
    DataFrame::new(true, op, m.payload())
}

pub struct Sent {
    pub out: Vec<u8>,
    /// per message: Ok or the error class, and the offset of the output after it
    pub results: Vec<(Result<(), String>, usize)>,
    pub stream: Scripted,
}
fn rc(r: Result<(), WebSocketError>) -> Result<(), String> {
    r.map_err(|e| errclass(&e))
}

/// Send all messages through interface `k`; wplan/fplan shape the transport. The handshake output is removed.
pub fn send(k: SK, form: Form, role: Role, msgs: &[M], wplan: Vec<W>, fplan: Vec<bool>, variant: usize) -> Result<Sent, Fail> {
    guard(|| send_inner(k, form, role, msgs, wplan, fplan, variant)).map_err(|e| match e {
        Fail::V(s) => Fail::V(format!("{:?}/{:?}/{:?}: {}", k, form, role, s)),
        h => h,
    })
}
macro_rules! with_form {
    ($form:expr, $m:expr, $f:expr) => {
        match $form {
            Form::Owned => {
                let x = $m.owned();
                $f(&x)
            }
            Form::Borrowed => {
                let x = borrowed($m);
                $f(&x)
            }
            Form::OwnedCow => {
                let x = owned_cow($m);
                $f(&x)
            }
        }
    };
}
fn send_inner(k: SK, form: Form, role: Role, msgs: &[M], wplan: Vec<W>, fplan: Vec<bool>, variant: usize) -> Result<Sent, Fail> {
    let masked = role.send_masked();
    let mut results = vec![];
    let mut opts = Opts::new(role);
    opts.variant = variant;
    let conn_stream = || Scripted::new(vec![Step::Data(recv::handshake_bytes(role))], End::Block);
    let arm = |s: &Scripted| {
        s.take_out();
        let mut l = s.l();
        l.wplan = wplan.clone();
        l.fplan = fplan.clone();
    };
    match k {
        SK::Sender | SK::SenderDf => {
            let s = Scripted::empty();
            arm(&s);
            let mut w = s.clone();
            let mut snd = Sender::new(masked);
            for m in msgs {
                let r = if k == SK::SenderDf && variant % 2 == 0 {
                    snd.send_dataframe(&mut w, &as_df(m))
                } else if k == SK::SenderDf {
                    match form {
                        Form::Owned => snd.send_dataframe(&mut w, &m.owned()),
                        Form::Borrowed => snd.send_dataframe(&mut w, &borrowed(m)),
                        Form::OwnedCow => snd.send_dataframe(&mut w, &owned_cow(m)),
                    }
                } else {
                    match form {
                        Form::Owned => snd.send_message(&mut w, &m.owned()),
                        Form::Borrowed => snd.send_message(&mut w, &borrowed(m)),
                        Form::OwnedCow => snd.send_message(&mut w, &owned_cow(m)),
                    }
                };
                results.push((rc(r), s.l().out.len()));
            }
            Ok(Sent { out: s.out(), results, stream: s })
        }
        SK::PairSender => {
            let s = Scripted::empty();
            arm(&s);
            let mut w = ReadWritePair(Scripted::empty(), s.clone());
            let mut snd = Sender::new(masked);
            for m in msgs {
                let r = if variant % 2 == 0 { snd.send_message(&mut w, &m.owned()) } else { borrowed(m).write_to(&mut w, masked) };
                results.push((rc(r), s.l().out.len()));
            }
            Ok(Sent { out: s.out(), results, stream: s })
        }
        SK::PairClient => {
            let s = conn_stream();
            let mut c = recv::sync_conn_pair(s.clone(), &opts)?;
            arm(&s);
            for m in msgs {
                let r = match form {
                    Form::Owned => c.send_message(&m.owned()),
                    Form::Borrowed => c.send_message(&borrowed(m)),
                    Form::OwnedCow => c.send_dataframe(&owned_cow(m)),
                };
                results.push((rc(r), s.l().out.len()));
            }
            Ok(Sent { out: s.out(), results, stream: s })
        }
        SK::Writer | SK::WriterDf => {
            let s = Scripted::empty();
            arm(&s);
            let mut w = Writer { stream: s.clone(), sender: Sender::new(masked) };
            for m in msgs {
                let r = if k == SK::WriterDf {
                    if variant % 2 == 0 {
                        w.send_dataframe(&as_df(m))
                    } else {
                        match form {
                            Form::Owned => w.send_dataframe(&m.owned()),
                            Form::Borrowed => w.send_dataframe(&borrowed(m)),
                            Form::OwnedCow => w.send_dataframe(&owned_cow(m)),
                        }
                    }
                } else {
                    match form {
                        Form::Owned => w.send_message(&m.owned()),
                        Form::Borrowed => w.send_message(&borrowed(m)),
                        Form::OwnedCow => w.send_message(&owned_cow(m)),
                    }
                };
                results.push((rc(r), s.l().out.len()));
            }
            Ok(Sent { out: s.out(), results, stream: s })
        }
        SK::Client | SK::ClientDf => {
            let s = conn_stream();
            let mut c = recv::sync_conn(s.clone(), &opts)?;
            arm(&s);
            for m in msgs {
                let r = if k == SK::ClientDf {
                    if variant % 2 == 0 {
                        c.send_dataframe(&as_df(m))
                    } else {
                        with_form!(form, m, |x| df_send(&mut c, x))
                    }
                } else {
                    match form {
                        Form::Owned => c.send_message(&m.owned()),
                        Form::Borrowed => c.send_message(&borrowed(m)),
                        Form::OwnedCow => c.send_message(&owned_cow(m)),
                    }
                };
                results.push((rc(r), s.l().out.len()));
            }
            Ok(Sent { out: s.out(), results, stream: s })
        }
        SK::ClientSplit | SK::ClientSplitDf => {
            let s = conn_stream();
            let c = recv::sync_conn_pair(s.clone(), &opts)?;
            let (_r, mut w) = c.split().map_err(|e| Fail::V(format!("split: {}", e)))?;
            arm(&s);
            for m in msgs {
                let r = if k == SK::ClientSplitDf {
                    w.send_dataframe(&as_df(m))
                } else {
                    match form {
                        Form::Owned => w.send_message(&m.owned()),
                        Form::Borrowed => w.send_message(&borrowed(m)),
                        Form::OwnedCow => w.send_message(&owned_cow(m)),
                    }
                };
                results.push((rc(r), s.l().out.len()));
            }
            Ok(Sent { out: s.out(), results, stream: s })
        }
        SK::Serialize | SK::WriteTo => {
            let s = Scripted::empty();
            arm(&s);
            let mut w = s.clone();
            for m in msgs {
                let r = if k == SK::Serialize {
                    match form {
                        Form::Owned => m.owned().serialize(&mut w, masked),
                        Form::Borrowed => borrowed(m).serialize(&mut w, masked),
                        Form::OwnedCow => owned_cow(m).serialize(&mut w, masked),
                    }
                } else if variant % 2 == 0 {
                    as_df(m).write_to(&mut w, masked)
                } else {
                    match form {
                        Form::Owned => m.owned().write_to(&mut w, masked),
                        Form::Borrowed => borrowed(m).write_to(&mut w, masked),
                        Form::OwnedCow => owned_cow(m).write_to(&mut w, masked),
                    }
                };
                results.push((rc(r), s.l().out.len()));
            }
            Ok(Sent { out: s.out(), results, stream: s })
        }
        SK::Codec | SK::CodecMsg | SK::CodecDf => {
            let mut buf = if variant % 2 == 0 { BytesMut::new() } else { BytesMut::with_capacity(variant * 7) };
            let mut c1 = MessageCodec::default(ctx_of(role));
            let mut c2 = MessageCodec::<Message<'static>>::new(ctx_of(role));
            let mut c3 = DataFrameCodec::<Box<dyn DataFrameTrait>>::new(ctx_of(role));
            for m in msgs {
                let r = match k {
                    SK::Codec => c1.encode(m.owned(), &mut buf),
                    SK::CodecMsg => c2.encode(owned_cow(m), &mut buf),
                    _ => c3.encode(boxed(form, m), &mut buf),
                };
                results.push((rc(r), buf.len()));
            }
            let s = Scripted::empty();
            s.l().out = buf.to_vec();
            Ok(Sent { out: buf.to_vec(), results, stream: s })
        }
        SK::Framed => {
            let s = Scripted::empty().asy();
            let f = MessageCodec::default(ctx_of(role)).framed(s.clone());
            arm(&s);
            let r = sink_all(f, msgs.iter().map(|m| m.owned()).collect(), &s, variant)?;
            Ok(Sent { out: s.out(), results: r, stream: s })
        }
        SK::PairFramed => {
            let s = Scripted::empty().asy();
            let f = MessageCodec::default(ctx_of(role)).framed(ReadWritePair(Scripted::empty().asy(), s.clone()));
            arm(&s);
            let r = sink_all(f, msgs.iter().map(|m| m.owned()).collect(), &s, variant)?;
            Ok(Sent { out: s.out(), results: r, stream: s })
        }
        SK::FramedMsg => {
            let s = Scripted::empty().asy();
            let f = MessageCodec::<Message<'static>>::new(ctx_of(role)).framed(s.clone());
            arm(&s);
            let r = sink_all(f, msgs.iter().map(owned_cow).collect(), &s, variant)?;
            Ok(Sent { out: s.out(), results: r, stream: s })
        }
        SK::FramedDf => {
            let s = Scripted::empty().asy();
            let f = DataFrameCodec::<Box<dyn DataFrameTrait>>::new(ctx_of(role)).framed(s.clone());
            arm(&s);
            let r = sink_all(f, msgs.iter().map(|m| boxed(form, m)).collect(), &s, variant)?;
            Ok(Sent { out: s.out(), results: r, stream: s })
        }
        SK::FramedSplit => {
            let s = Scripted::empty().asy();
            let (f, _r) = MessageCodec::default(ctx_of(role)).framed(s.clone()).split();
            arm(&s);
            let r = sink_all(f, msgs.iter().map(|m| m.owned()).collect(), &s, variant)?;
            Ok(Sent { out: s.out(), results: r, stream: s })
        }
        SK::AsyncClient => {
            let s = conn_stream();
            let f = recv::async_conn(s.clone(), &opts)?;
            arm(&s);
            let r = sink_all(f, msgs.iter().map(|m| m.owned()).collect(), &s, variant)?;
            Ok(Sent { out: s.out(), results: r, stream: s })
        }
    }
}
trait DfSend {
    fn go<D: DataFrameTrait>(&mut self, d: &D) -> Result<(), WebSocketError>;
}
impl DfSend for websocket::sync::Client<Scripted> {
    fn go<D: DataFrameTrait>(&mut self, d: &D) -> Result<(), WebSocketError> {
        self.send_dataframe(d)
    }
}
fn df_send<C: DfSend, D: DataFrameTrait>(c: &mut C, d: &D) -> Result<(), WebSocketError> {
    c.go(d)
}
fn boxed(form: Form, m: &M) -> Box<dyn DataFrameTrait> {
    match form {
        Form::Owned => Box::new(m.owned()),
        Form::Borrowed => Box::new(as_df(m)),
        Form::OwnedCow => Box::new(owned_cow(m)),
    }
}

/// Push items into a sink, flushing now and then, finally flushing completely (variant selects the schedule).
pub fn sink_all<S>(mut sink: S, items: Vec<S::SinkItem>, s: &Scripted, variant: usize) -> Result<Vec<(Result<(), String>, usize)>, Fail>
where
    S: Sink<SinkError = WebSocketError>,
{
    let ss = [s.clone()];
    let mut res = vec![];
    for (i, it) in items.into_iter().enumerate() {
        let mut slot = Some(it);
        let r = drive_fn(
            || -> Result<Async<()>, WebSocketError> {
                match slot.take() {
                    None => Ok(Async::Ready(())),
                    Some(x) => match sink.start_send(x)? {
                        AsyncSink::Ready => Ok(Async::Ready(())),
                        AsyncSink::NotReady(x) => {
                            slot = Some(x);
                            Ok(Async::NotReady)
                        }
                    },
                }
            },
            &ss,
        )?;
        match r {
            D::Done(()) => res.push((Ok(()), 0)),
            D::Err(e) => {
                res.push((Err(errclass(&e)), 0));
                continue;
            }
            D::Idle => return Err(Fail::V("sink stalled while the transport accepts data".into())),
        }
        let flush = match variant % 3 {
            0 => true,
            1 => false,
            _ => i % 5 == 4,
        };
        if flush {
            match drive_fn(|| sink.poll_complete(), &ss)? {
                D::Done(()) => {
                    let n = s.l().out.len();
                    if let Some(l) = res.last_mut() {
                        l.1 = n
                    }
                }
                D::Err(e) if s.l().faults > 0 => {
                    s.l().flush_error = Some(errclass(&e));
                    return Ok(res);
                }
                D::Err(e) => return Err(Fail::V(format!("flush failed on a working transport: {}", errclass(&e)))),
                D::Idle => return Err(Fail::V("flush stalled while the transport accepts data".into())),
            }
        }
    }
    let r = if variant % 4 == 3 {
        drive_fn(|| sink.close(), &ss)?
    } else {
        drive_fn(|| sink.poll_complete(), &ss)?
    };
    match r {
        D::Done(()) => s.l().flushed_all = true,
        D::Err(e) if s.l().faults > 0 => s.l().flush_error = Some(errclass(&e)),
        D::Err(e) => return Err(Fail::V(format!("final flush failed on a working transport: {}", errclass(&e)))),
        D::Idle => return Err(Fail::V("final flush stalled while the transport accepts data".into())),
    }
    Ok(res)
}
#[allow(dead_code)]
fn _u(_: OwnedMessage) {
    let _ = drive::<futures::future::Empty<(), ()>>;
}
