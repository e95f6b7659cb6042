//! C02: frames on the wire are well formed and sized as predicted; oversized control messages are refused.
use crate::core::*;
use crate::gen;
use crate::recv::{errclass, sync_conn, sync_conn_pair, Opts};
use crate::send::{self, as_df, borrowed, owned_cow, Form, FORMS, SK};
use crate::stream::*;
use crate::wire::*;
use bytes::BytesMut;
use tokio_codec::{Decoder, Encoder};
use websocket::codec::ws::DataFrameCodec;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::message::{Message, Type};
use websocket::result::WebSocketResult;
use websocket::sender::{Sender, Writer};
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::Message as MessageTrait;
use websocket::ws::Sender as _;

/// An application-defined frame that hands over its payload in pieces.
pub struct Chunked {
    pub f: F,
    pub chunk: usize,
    pub rsv: [bool; 3],
}
impl Chunked {
    pub fn new(f: &F, chunk: usize) -> Chunked {
        Chunked { f: f.clone(), chunk: chunk.max(1), rsv: rsv_bits(f.rsv) }
    }
}
pub fn rsv_bits(r: u8) -> [bool; 3] {
    [r & 4 != 0, r & 2 != 0, r & 1 != 0]
}
impl DataFrameTrait for Chunked {
    fn is_last(&self) -> bool {
        self.f.fin
    }
    fn opcode(&self) -> u8 {
        self.f.op
    }
    fn reserved(&self) -> &[bool; 3] {
        &self.rsv
    }
    fn size(&self) -> usize {
        self.f.payload.len()
    }
    fn write_payload(&self, w: &mut dyn std::io::Write) -> WebSocketResult<()> {
        for c in self.f.payload.chunks(self.chunk) {
            w.write_all(c)?;
        }
        Ok(())
    }
    fn take_payload(self) -> Vec<u8> {
        self.f.payload
    }
}
pub fn df_of(f: &F) -> DataFrame {
    DataFrame { finished: f.fin, reserved: rsv_bits(f.rsv), opcode: Opcode::new(f.op).unwrap(), data: f.payload.clone() }
}

fn predicted(m: &M, masked: bool) -> Result<usize, Fail> {
    let a = m.owned().message_size(masked);
    let v = [
        borrowed(m).message_size(masked),
        owned_cow(m).message_size(masked),
        m.owned().frame_size(masked),
        borrowed(m).frame_size(masked),
        as_df(m).frame_size(masked),
    ];
    ensure!(v.iter().all(|x| *x == a), "predicted sizes of {} disagree: {} vs {:?}", m.short(), a, v);
    let s = [DataFrameTrait::size(&m.owned()), DataFrameTrait::size(&borrowed(m)), DataFrameTrait::size(&as_df(m))];
    ensure!(s.iter().all(|x| *x == m.payload().len()), "payload sizes of {}: {:?}", m.short(), s);
    Ok(a)
}

pub fn over_control(r: &mut Rng) -> M {
    let n = *r.pick(&[126, 127, 128, 130, 200, 255, 256, 1000, 65535, 65536, 70000]);
    match r.below(4) {
        0 => M::Ping(gen::payload(r, n)),
        1 => M::Pong(gen::payload(r, n)),
        2 => {
            // length that truncates to something small in 8 or 16 bits
            let n = *r.pick(&[256, 257, 300, 381, 65536, 65540]);
            M::Ping(gen::payload(r, n))
        }
        _ => M::Close(Some((*r.pick(&gen::CODES), gen::utf8(r, n - 2)))),
    }
}
fn message_case(c: &mut Case, sk: SK, form: Form, role: Role, ms: &[M]) -> Res {
    let masked = role.send_masked();
    let (wp, fpn) = gen::wplan(&mut c.rng, sk.is_async_io());
    let variant = c.rng.below(24);
    c.note(format!("send {:?}/{:?}/{:?} variant {} wplan {:?} msgs {}", sk, form, role, variant, wp, shorts(ms)));
    let sent = send::send(sk, form, role, ms, wp, fpn, variant)?;
    let fs = match parse_sent(&sent.out) {
        Ok(f) => f,
        Err(e) => viol!("{:?}/{:?}: bytes on the wire: {}", sk, role, e),
    };
    let mut it = fs.iter();
    let mut total = 0;
    let mut prev = 0;
    for (i, m) in ms.iter().enumerate() {
        let p = m.payload();
        let (r, off) = &sent.results[i];
        if m.is_control() && p.len() > 125 {
            ensure!(r.is_err(), "{:?}/{:?}: control message {} was not refused", sk, role, m.short());
            ensure!(*off == 0 || *off == prev, "{:?}/{:?}: refused control message {} still wrote {} bytes", sk, role, m.short(), off - prev);
            c.ev("refused_controls", 1);
            continue;
        }
        ensure!(r.is_ok(), "{:?}/{:?}: sending {} failed: {:?}", sk, role, m.short(), r);
        let f = match it.next() {
            Some(f) => f,
            None => viol!("{:?}/{:?}: {} never appeared on the wire", sk, role, m.short()),
        };
        ensure!(
            f.fin && f.rsv == 0 && f.op == m.op() && f.payload == p,
            "{:?}/{:?}: {} appeared on the wire as {} {}",
            sk,
            role,
            m.short(),
            f.short(),
            hex(&f.payload)
        );
        let l = f.encode().len();
        let pr = predicted(m, masked)?;
        ensure!(pr == l, "{:?}/{:?}: predicted size of {} is {} but {} bytes were written", sk, role, m.short(), pr, l);
        total += l;
        if *off != 0 {
            ensure!(*off == total, "{:?}/{:?}: {} bytes on the wire after message {} instead of {}", sk, role, off, i, total);
            prev = *off;
        }
        c.ev("frames_checked", 1);
    }
    ensure!(it.next().is_none(), "{:?}/{:?}: more frames on the wire than messages sent", sk, role);
    ensure!(total == sent.out.len(), "{:?}/{:?}: {} bytes written, {} predicted", sk, role, sent.out.len(), total);
    if ms.is_empty() {
        c.eval_trivial()
    } else {
        c.eval(gen::fp(ms) ^ hash_s(&format!("{:?}{:?}{:?}", sk, role, form)));
    }
    c.seen("send_interface", hash_s(&format!("{:?}{:?}{:?}", sk, role, form)));
    c.sample(|| format!("{:?} {:?} {:?}: {}", sk, form, role, shorts(ms)));
    Ok(())
}

pub const FK: [&str; 9] =
    ["Sender", "Writer", "Client", "ClientSplit", "write_to", "boxed write_to", "DataFrameCodec", "Framed", "FramedBoxed"];
/// Write low-level frames through interface `k`. chunk>0: as application-defined frames.
pub fn send_frames(k: usize, role: Role, fs: &[F], chunk: usize, wp: Vec<W>, fpn: Vec<bool>, variant: usize) -> Result<(Vec<u8>, Vec<Result<(), String>>), Fail> {
    guard(|| {
        let masked = role.send_masked();
        let s = if k == 2 || k == 3 {
            Scripted::new(vec![Step::Data(crate::recv::handshake_bytes(role))], End::Block)
        } else {
            Scripted::empty()
        };
        let arm = |s: &Scripted| {
            s.take_out();
            let mut l = s.l();
            l.wplan = wp.clone();
            l.fplan = fpn.clone();
        };
        let mut o = Opts::new(role);
        o.variant = variant;
        let mut res: Vec<Result<(), String>> = vec![];
        macro_rules! each {
            ($f:expr) => {
                for f in fs {
                    let r = if chunk > 0 { $f(&Chunked::new(f, chunk) as &dyn DataFrameTrait2) } else { $f(&df_of(f) as &dyn DataFrameTrait2) };
                    res.push(r.map_err(|e| errclass(&e)));
                }
            };
        }
        match k {
            0 => {
                arm(&s);
                let mut snd = Sender::new(masked);
                let mut w = s.clone();
                each!(|d: &dyn DataFrameTrait2| d.via_sender(&mut snd, &mut w));
            }
            1 => {
                arm(&s);
                let mut w = Writer { stream: s.clone(), sender: Sender::new(masked) };
                each!(|d: &dyn DataFrameTrait2| d.via_writer(&mut w));
            }
            2 => {
                let mut cl = sync_conn(s.clone(), &o)?;
                arm(&s);
                each!(|d: &dyn DataFrameTrait2| d.via_client(&mut cl));
            }
            3 => {
                let cl = sync_conn_pair(s.clone(), &o)?;
                let (_r, mut w) = cl.split().map_err(|e| Fail::V(format!("split: {}", e)))?;
                arm(&s);
                each!(|d: &dyn DataFrameTrait2| d.via_writer(&mut w));
            }
            4 | 5 => {
                arm(&s);
                let mut w = s.clone();
                each!(|d: &dyn DataFrameTrait2| d.via_write_to(&mut w, masked));
            }
            6 => {
                let mut buf = BytesMut::new();
                let mut c1 = DataFrameCodec::<DataFrame>::default(crate::recv::ctx_of(role));
                let mut c2 = DataFrameCodec::<Box<dyn DataFrameTrait>>::new(crate::recv::ctx_of(role));
                for f in fs {
                    let _ = &mut c1;
                    let r = c2.encode(
                        if chunk > 0 { Box::new(Chunked::new(f, chunk)) as Box<dyn DataFrameTrait> } else { Box::new(df_of(f)) },
                        &mut buf,
                    );
                    res.push(r.map_err(|e| errclass(&e)));
                }
                s.l().out = buf.to_vec();
            }
            _ => {
                let s2 = s.clone().asy();
                let f = DataFrameCodec::<Box<dyn DataFrameTrait>>::new(crate::recv::ctx_of(role)).framed(s2.clone());
                arm(&s);
                let items: Vec<Box<dyn DataFrameTrait>> = fs
                    .iter()
                    .map(|f| if chunk > 0 { Box::new(Chunked::new(f, chunk)) as Box<dyn DataFrameTrait> } else { Box::new(df_of(f)) })
                    .collect();
                res = send::sink_all(f, items, &s2, variant)?.into_iter().map(|x| x.0).collect();
            }
        }
        Ok((s.out(), res))
    })
}
pub trait DataFrameTrait2 {
    fn via_sender(&self, s: &mut Sender, w: &mut Scripted) -> WebSocketResult<()>;
    fn via_writer(&self, w: &mut Writer<Scripted>) -> WebSocketResult<()>;
    fn via_client(&self, c: &mut websocket::sync::Client<Scripted>) -> WebSocketResult<()>;
    fn via_write_to(&self, w: &mut Scripted, masked: bool) -> WebSocketResult<()>;
}
impl<T: DataFrameTrait> DataFrameTrait2 for T {
    fn via_sender(&self, s: &mut Sender, w: &mut Scripted) -> WebSocketResult<()> {
        s.send_dataframe(w, self)
    }
    fn via_writer(&self, w: &mut Writer<Scripted>) -> WebSocketResult<()> {
        w.send_dataframe(self)
    }
    fn via_client(&self, c: &mut websocket::sync::Client<Scripted>) -> WebSocketResult<()> {
        c.send_dataframe(self)
    }
    fn via_write_to(&self, w: &mut Scripted, masked: bool) -> WebSocketResult<()> {
        self.write_to(w, masked)
    }
}

fn frame_case(c: &mut Case, k: usize, role: Role, fs: &[F]) -> Res {
    let masked = role.send_masked();
    let (wp, fpn) = gen::wplan(&mut c.rng, k >= 7);
    let variant = c.rng.below(24);
    let chunk = if c.rng.chance(1, 2) { 0 } else { *c.rng.pick(&[1, 2, 3, 5, 7, 64, 1000]) };
    c.note(format!("{} {:?} chunk {} wplan {:?} frames {:?}", FK[k], role, chunk, wp, fs.iter().map(|f| f.short()).collect::<Vec<_>>()));
    let (out, res) = send_frames(k, role, fs, chunk, wp, fpn, variant)?;
    let got = match parse_sent(&out) {
        Ok(f) => f,
        Err(e) => viol!("{}/{:?}: bytes on the wire: {}", FK[k], role, e),
    };
    let mut it = got.iter();
    for (i, f) in fs.iter().enumerate() {
        if f.op >= 8 && f.payload.len() > 125 {
            ensure!(res[i].is_err(), "{}/{:?}: control frame {} was not refused", FK[k], role, f.short());
            c.ev("refused_controls", 1);
            continue;
        }
        ensure!(res[i].is_ok(), "{}/{:?}: sending frame {} failed: {:?}", FK[k], role, f.short(), res[i]);
        let g = match it.next() {
            Some(g) => g,
            None => viol!("{}/{:?}: frame {} never appeared on the wire", FK[k], role, f.short()),
        };
        ensure!(
            g.fin == f.fin && g.rsv == f.rsv && g.op == f.op && g.payload == f.payload,
            "{}/{:?}: frame {} appeared on the wire as {} {}",
            FK[k],
            role,
            f.short(),
            g.short(),
            hex(&g.payload)
        );
        let pr = if chunk > 0 { Chunked::new(f, chunk).frame_size(masked) } else { df_of(f).frame_size(masked) };
        ensure!(pr == g.encode().len(), "predicted size of frame {} is {}, {} written", f.short(), pr, g.encode().len());
        c.ev("frames_checked", 1);
    }
    ensure!(it.next().is_none(), "{}/{:?}: more frames on the wire than sent", FK[k], role);
    let mut h = hash_s(FK[k]) ^ role as u64;
    for f in fs {
        h = h.rotate_left(5) ^ hash(&f.payload) ^ (f.op as u64) << 8 ^ (f.rsv as u64) << 16 ^ (f.fin as u64) << 24;
    }
    c.eval(h);
    Ok(())
}
pub fn any_frame(r: &mut Rng, big: bool) -> F {
    let op = r.below(16) as u8;
    let n = if op >= 8 { gen::csize(r) } else { gen::size(r, big) };
    let mut f = F::new(r.chance(2, 3), op, gen::payload(r, n));
    f.rsv = if r.chance(1, 2) { 0 } else { r.below(8) as u8 };
    f
}

pub fn run(x: &Ctx) {
    x.scale(10);
    x.rule("a case sends generated messages or low-level frames (valid and oversized control ones) through one send interface over a transport with generated partial writes, and every byte written is parsed by an independent strict parser and compared with what was asked for and predicted; non-trivial: at least one message; distinct by content, interface, role and form");
    let per = (send::ALL.len() * 2 * 3) as u64;
    x.run("messages", per * x.q(60, 4000), |c| {
        let i = (c.idx % per) as usize;
        let sk = send::ALL[i / 6];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let form = FORMS[i / 2 % 3];
        let mut ms = gen::msgs(&mut c.rng, 8, c.idx % 4 == 0);
        while c.rng.chance(1, 2) && ms.len() < 12 {
            let p = c.rng.below(ms.len() + 1);
            let m = over_control(&mut c.rng);
            ms.insert(p, m);
        }
        message_case(c, sk, form, role, &ms)
    });
    // every payload length around the encoding boundaries, every kind
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend(65500..=65560);
    lens.extend([1000, 4096, 8192, 16384, 32767, 32768, 131071, 131072, 1 << 20]);
    x.run("lengths", lens.len() as u64 * x.q(1, 20), |c| {
        let n = lens[(c.idx % lens.len() as u64) as usize];
        let ascii: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let mut ms = vec![M::Text(ascii.clone()), M::Bin(gen::payload(&mut c.rng, n)), M::Ping(c.rng.bytes(n)), M::Pong(c.rng.bytes(n))];
        if n >= 2 {
            ms.push(M::Close(Some((1000, ascii[2..].to_string()))));
        }
        let k = x.q(3, 18) as usize;
        for _ in 0..k {
            let sk = *c.rng.pick(&send::ALL);
            let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
            let form = *c.rng.pick(&FORMS);
            message_case(c, sk, form, role, &ms)?;
        }
        c.ev("lengths", 1);
        Ok(())
    });
    // a few very large ones, through every interface
    x.run_t("huge", (send::ALL.len() * 2) as u64 * x.q(1, 6), 4, |c| {
        let i = (c.idx as usize) % (send::ALL.len() * 2);
        let n = c.rng.range(5 << 20, if c.idx % 8 == 0 { 40 << 20 } else { 18 << 20 });
        let m = if c.rng.chance(1, 2) { M::Bin(gen::payload(&mut c.rng, n)) } else { M::Text("h".repeat(n)) };
        let form = *c.rng.pick(&FORMS);
        message_case(c, send::ALL[i / 2], form, if i % 2 == 0 { Role::Client } else { Role::Server }, &[m, M::Text("z".into())])?;
        c.ev("huge_messages", 1);
        Ok(())
    });
    x.run("frames", 18 * x.q(300, 20000), |c| {
        let k = (c.idx % 9) as usize;
        let role = if c.idx / 9 % 2 == 0 { Role::Client } else { Role::Server };
        let n = c.rng.range(1, 6);
        let fs: Vec<F> = (0..n)
            .map(|_| {
                if c.rng.chance(1, 8) {
                    let m = over_control(&mut c.rng);
                    let mut f = F::new(c.rng.chance(1, 2), 8 + c.rng.below(8) as u8, m.payload());
                    f.rsv = c.rng.below(8) as u8;
                    f
                } else {
                    any_frame(&mut c.rng, c.idx % 5 == 0)
                }
            })
            .collect();
        frame_case(c, k, role, &fs)
    });
    // messages put together from their public fields, also in ways the constructors never do
    x.run("fields", x.q(3000, 100_000), |c| {
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        let masked = role.send_masked();
        let l = gen::size(&mut c.rng, false);
        let p = c.rng.bytes(l);
        let code = if c.rng.chance(1, 2) { Some(c.rng.below(65536) as u16) } else { None };
        let kinds = [Type::Text, Type::Binary, Type::Ping, Type::Pong, Type::Close];
        let mk = || Message { opcode: kinds[(c.idx % 5) as usize], cd_status_code: code, payload: p.clone().into() };
        let m = mk();
        let (sz, fsz) = (m.message_size(masked), m.frame_size(masked));
        let mut out = vec![];
        let r = m.serialize(&mut out, masked);
        let what = format!("Message {{ {:?}, {:?}, {} bytes }}", kinds[(c.idx % 5) as usize], code, l);
        let control = c.idx % 5 >= 2;
        let n = DataFrameTrait::size(&m);
        if control && n > 125 {
            ensure!(r.is_err() && out.is_empty(), "{}: {:?} and {} bytes written", what, r.is_ok(), out.len());
            c.ev("refused_controls", 1);
        } else {
            ensure!(r.is_ok(), "{}: not sent", what);
            let f = match parse_sent(&out) {
                Ok(f) => f,
                Err(e) => viol!("{}: {}", what, e),
            };
            ensure!(f.len() == 1 && f[0].fin && f[0].rsv == 0 && f[0].payload.len() == n, "{}: {} frames, payload size said to be {}", what, f.len(), n);
            ensure!(sz == out.len() && fsz == out.len(), "{}: predicted {} and {}, wrote {}", what, sz, fsz, out.len());
            c.ev("frames_checked", 1);
        }
        c.eval(hash_s(&what));
        Ok(())
    });
    // all 256 first bytes
    x.run("first_bytes", 18, |c| {
        let k = (c.idx % 9) as usize;
        let role = if c.idx / 9 % 2 == 0 { Role::Client } else { Role::Server };
        let fs: Vec<F> = (0..256u32)
            .map(|b| {
                let mut f = F::new(b & 0x80 != 0, b as u8 & 15, c.rng.bytes((b % 7) as usize));
                f.rsv = (b >> 4 & 7) as u8;
                f
            })
            .collect();
        frame_case(c, k, role, &fs)
    });
    x.need("frames_checked", 5000);
    x.need("refused_controls", 500);
}
