//! C11: low-level frames survive a write/read round trip.
use crate::c02::{any_frame, df_of, rsv_bits, send_frames, Chunked, FK};
use crate::core::*;
use crate::exec::{drive_fn, D};
use crate::gen;
use crate::recv::{ctx_of, errclass, handshake_bytes, sync_conn, sync_conn_pair, Opts};
use crate::stream::*;
use crate::wire::*;
use bytes::BytesMut;
use futures::Stream as _;
use hyper::buffer::BufReader;
use tokio_codec::{Decoder, Encoder, Framed, FramedRead};
use websocket::codec::ws::DataFrameCodec;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::receiver::{Reader, Receiver};
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::util::header::{read_header, write_header, DataFrameFlags, DataFrameHeader};
use websocket::ws::Receiver as _;
use websocket::WebSocketError;

pub const FR: [&str; 12] = [
    "read_dataframe",
    "read_dataframe_with_limit",
    "read_header + read_dataframe_body",
    "Receiver",
    "Receiver iterator",
    "Reader",
    "Client",
    "Client iterator",
    "ClientSplit iterator",
    "DataFrameCodec",
    "DataFrameCodec Framed",
    "DataFrameCodec boxed Framed",
];

fn cmp(what: &str, f: &F, d: &DataFrame) -> Res {
    ensure!(
        d.finished == f.fin && d.reserved == rsv_bits(f.rsv) && d.opcode as u8 == f.op && d.data == f.payload,
        "{}: frame {} {} came back as fin {} rsv {:?} opcode {:?} {}",
        what,
        f.short(),
        hex(&f.payload),
        d.finished,
        d.reserved,
        d.opcode,
        hex(&d.data)
    );
    ensure!(
        d.is_last() == f.fin && d.opcode() == f.op && *d.reserved() == rsv_bits(f.rsv) && d.size() == f.payload.len(),
        "{}: the trait view of frame {} differs from its fields",
        what,
        f.short()
    );
    Ok(())
}
enum R {
    F(DataFrame),
    E(WebSocketError),
    End,
}
/// Read `n` results through interface `k`. Returns results and, for raw reads, the bytes left.
fn read_frames(k: usize, role: Role, steps: Vec<Step>, n: usize, limit: Option<usize>, variant: usize) -> Result<(Vec<R>, Option<Vec<u8>>), Fail> {
    guard(|| {
        let masked = role.recv_masked();
        let mut steps = steps;
        if (6..=8).contains(&k) {
            steps = crate::recv::with_handshake(role, steps, variant % 3 == 1);
        }
        let s = Scripted::new(steps, End::Eof);
        let lim = limit.unwrap_or(100 << 20);
        let mut o = Opts::new(role);
        o.variant = variant;
        o.limits = limit.map(|l| (l, l));
        let mut v = vec![];
        let mut left = None;
        let mk = || match limit {
            Some(l) => Receiver::new_with_limits(masked, l, 1 << 30),
            None => Receiver::new(masked),
        };
        let conv = |r: Result<DataFrame, WebSocketError>| match r {
            Ok(d) => R::F(d),
            Err(e) => R::E(e),
        };
        match k {
            0 | 1 | 2 => {
                let mut r = s.clone();
                for _ in 0..n {
                    v.push(conv(match k {
                        0 => DataFrame::read_dataframe(&mut r, masked),
                        1 => DataFrame::read_dataframe_with_limit(&mut r, masked, lim),
                        _ => match read_header(&mut r) {
                            Err(e) => Err(e),
                            Ok(h) => {
                                let mut b = vec![0; h.len as usize];
                                match std::io::Read::read_exact(&mut r, &mut b) {
                                    Ok(()) => DataFrame::read_dataframe_body(h, b, masked),
                                    Err(e) => Err(e.into()),
                                }
                            }
                        },
                    }));
                    if let Some(R::E(_)) = v.last() {
                        break;
                    }
                }
                left = Some(s.unread());
            }
            3 => {
                let mut rc = mk();
                let mut r = s.clone();
                for _ in 0..n {
                    v.push(conv(rc.recv_dataframe(&mut r)));
                }
                left = Some(s.unread());
            }
            4 => {
                let mut rc = mk();
                let mut r = s.clone();
                for x in rc.incoming_dataframes(&mut r).take(n) {
                    v.push(conv(x));
                }
                left = Some(s.unread());
            }
            5 => {
                let mut r = Reader { stream: BufReader::new(s.clone()), receiver: mk() };
                for i in 0..n {
                    if i % 2 == 0 {
                        v.push(conv(r.recv_dataframe()));
                    } else {
                        v.push(match r.incoming_dataframes().next() {
                            Some(x) => conv(x),
                            None => R::End,
                        });
                    }
                }
            }
            6 | 7 => {
                let mut c = sync_conn(s.clone(), &o)?;
                if k == 6 {
                    for _ in 0..n {
                        v.push(conv(c.recv_dataframe()));
                    }
                } else {
                    for x in c.incoming_dataframes().take(n) {
                        v.push(conv(x));
                    }
                }
            }
            8 => {
                let c = sync_conn_pair(s.clone(), &o)?;
                let (mut r, _w) = c.split().map_err(|e| Fail::V(format!("split: {}", e)))?;
                for x in r.incoming_dataframes().take(n) {
                    v.push(conv(x));
                }
            }
            9 => {
                let mut c = match limit {
                    Some(l) => DataFrameCodec::<DataFrame>::new_with_limits(ctx_of(role), l),
                    None => DataFrameCodec::default(ctx_of(role)),
                };
                let mut buf = BytesMut::new();
                'o: for _ in 0..n {
                    loop {
                        match c.decode(&mut buf) {
                            Ok(Some(d)) => {
                                v.push(R::F(d));
                                break;
                            }
                            Err(e) => {
                                v.push(R::E(e));
                                break;
                            }
                            Ok(None) => {}
                        }
                        match s.l().steps.pop_front() {
                            Some(Step::Data(d)) => buf.extend_from_slice(&d),
                            Some(_) => {}
                            None => {
                                v.push(R::End);
                                break 'o;
                            }
                        }
                    }
                }
                let mut l = buf.to_vec();
                l.extend(s.unread());
                left = Some(l);
            }
            _ => {
                let s2 = s.asy();
                let ss = [s2.clone()];
                macro_rules! go {
                    ($f:expr, $left:expr) => {{
                        let mut f = $f;
                        for _ in 0..n {
                            match drive_fn(|| f.poll(), &ss)? {
                                D::Done(Some(d)) => v.push(R::F(d)),
                                D::Done(None) => {
                                    v.push(R::End);
                                    break;
                                }
                                D::Err(e) => v.push(R::E(e)),
                                D::Idle => hfail!("idle"),
                            }
                        }
                        left = $left(f);
                    }};
                }
                type BC = DataFrameCodec<Box<dyn DataFrameTrait>>;
                let rest = |f: Framed<Scripted, BC>| {
                    let mut l = f.into_parts().read_buf.to_vec();
                    l.extend(ss[0].unread());
                    Some(l)
                };
                match (k, limit) {
                    (10, None) => go!(FramedRead::new(s2.clone(), DataFrameCodec::<DataFrame>::default(ctx_of(role))), |_f| None),
                    (10, Some(l)) => go!(FramedRead::new(s2.clone(), DataFrameCodec::<DataFrame>::new_with_limits(ctx_of(role), l)), |_f| None),
                    (_, None) => go!(BC::new(ctx_of(role)).framed(s2.clone()), rest),
                    (_, Some(l)) => go!(BC::new_with_limits(ctx_of(role), l).framed(s2.clone()), rest),
                }
            }
        }
        Ok((v, left))
    })
}

fn round_trip(c: &mut Case, wk: usize, rk: usize, role: Role, fs: &[F]) -> Res {
    let (wp, fpn) = gen::wplan(&mut c.rng, wk >= 7);
    let variant = c.rng.below(24);
    let chunk = if c.rng.chance(1, 2) { 0 } else { *c.rng.pick(&[1, 2, 3, 5, 7, 64, 1000]) };
    c.note(format!(
        "write {} as {:?} chunk {} wplan {:?}, read {}: {:?}",
        FK[wk],
        role,
        chunk,
        wp,
        FR[rk],
        fs.iter().map(|f| format!("{}:{}", f.short(), hash(&f.payload) as u32)).collect::<Vec<_>>()
    ));
    let (mut bytes, res) = send_frames(wk, role, fs, chunk, wp, fpn, variant)?;
    for (f, r) in fs.iter().zip(&res) {
        ensure!(r.is_ok(), "{}: writing {} failed: {:?}", FK[wk], f.short(), r);
    }
    let mut bounds = vec![];
    let mut p = 0;
    for f in fs {
        p += f.payload.len() + 2 + if f.payload.len() > 65535 { 8 } else if f.payload.len() > 125 { 2 } else { 0 } + if role == Role::Client { 4 } else { 0 };
        bounds.push(p);
    }
    ensure!(p == bytes.len(), "{}: {} bytes written for frames of {} bytes", FK[wk], bytes.len(), p);
    let tail = if c.rng.chance(2, 3) {
        let n = c.rng.range(1, 40);
        c.rng.bytes(n)
    } else {
        vec![]
    };
    bytes.extend_from_slice(&tail);
    let (steps, _) = gen::segment(&mut c.rng, &bytes, &bounds);
    let what = format!("{} -> {} ({:?} writes)", FK[wk], FR[rk], role);
    let limit = if c.rng.chance(1, 3) { Some(fs.iter().map(|f| f.payload.len()).max().unwrap_or(0)) } else { None };
    let (v, left) = read_frames(rk, role.peer(), steps, fs.len(), limit, variant)?;
    ensure!(v.len() == fs.len(), "{}: {} results for {} frames", what, v.len(), fs.len());
    for (i, (f, r)) in fs.iter().zip(&v).enumerate() {
        match r {
            R::F(d) => cmp(&what, f, d)?,
            R::E(e) => viol!("{}: reading frame {} {} failed: {} (limit {:?})", what, i, f.short(), errclass(e), limit),
            R::End => viol!("{}: stream ended instead of frame {} {}", what, i, f.short()),
        }
        c.ev("frames_round_tripped", 1);
    }
    if let Some(l) = left {
        ensure!(l == tail, "{}: {} bytes left after the frames instead of {}: {}", what, l.len(), tail.len(), hex(&l));
        c.ev("exact_consumption", 1);
    }
    c.seen("interface_pair", (wk * 100 + rk * 2 + role as usize) as u64);
    let mut h = (wk * 100 + rk * 2 + role as usize) as u64;
    for f in fs {
        h = h.rotate_left(5) ^ hash(&f.payload) ^ (f.op as u64) << 8 ^ (f.rsv as u64) << 16 ^ (f.fin as u64) << 24;
    }
    c.eval(h);
    c.sample(|| format!("{}: {:?}", what, fs.iter().map(|f| f.short()).collect::<Vec<_>>()));
    Ok(())
}
fn readable(r: &mut Rng, big: bool) -> F {
    let mut f = any_frame(r, big);
    if f.op >= 8 {
        f.fin = true; // a fragmented control frame is refused on reading (C05)
    }
    f
}

fn limit_case(c: &mut Case, rk: usize, role: Role) -> Res {
    // a frame of n bytes under a limit of n-1, n, n+1 and around
    let n = match c.rng.below(6) {
        0 => c.rng.range(0, 4),
        1 => *c.rng.pick(&[124, 125, 126, 127, 128]),
        2 => *c.rng.pick(&[65534, 65535, 65536, 65537]),
        3 => c.rng.range(0, 300),
        4 => *c.rng.pick(&[4094, 4096, 4098, 8190, 8192, 8200, 16384]),
        _ => c.rng.range(0, 20000),
    };
    let op = if n <= 125 { *c.rng.pick(&[0u8, 1, 2, 5, 8, 9, 10, 13]) } else { *c.rng.pick(&[0u8, 1, 2, 3, 7]) };
    let delta = *c.rng.pick(&[-2i64, -1, 0, 1, 2, 1000]);
    let limit = (n as i64 + delta).max(0) as usize;
    let f = F::new(op >= 8 || c.rng.chance(1, 2), op, gen::payload(&mut c.rng, n)).masked(gen::mask_for(&mut c.rng, role.recv_masked()));
    let mut bytes = f.encode();
    let extra = c.rng.range(0, 20);
    bytes.extend(c.rng.bytes(extra));
    let bl = f.encode().len();
    let (steps, _) = gen::segment(&mut c.rng, &bytes, &[bl]);
    let what = format!("{} as {:?}, frame {} under limit {}", FR[rk], role, f.short(), limit);
    c.note(what.clone());
    let variant = c.rng.below(12);
    let (v, _) = read_frames(rk, role, steps, 1, Some(limit), variant)?;
    match (v.first(), n <= limit) {
        (Some(R::F(d)), true) => cmp(&what, &f, d)?,
        (Some(R::E(_)), false) => {}
        (Some(R::F(_)), false) => viol!("{}: accepted", what),
        (Some(R::E(e)), true) => viol!("{}: refused with {}", what, errclass(e)),
        _ => viol!("{}: neither a frame nor an error", what),
    }
    c.ev(if n <= limit { "within_limit" } else { "over_limit" }, 1);
    c.eval(hash_s(&what));
    Ok(())
}

fn mask_case(c: &mut Case, rk: usize, role: Role) -> Res {
    let mut f = readable(&mut c.rng, c.idx % 7 == 0);
    let wrong = gen::mask_for(&mut c.rng, !role.recv_masked());
    f = f.masked(wrong);
    let k = c.rng.below(3);
    let before: Vec<F> = (0..k).map(|_| readable(&mut c.rng, false).masked(gen::mask_for(&mut c.rng, role.recv_masked()))).collect();
    let mut bytes = encode_all(&before);
    bytes.extend(f.encode());
    let n = c.rng.range(0, 30);
    bytes.extend(c.rng.bytes(n));
    let (steps, _) = gen::segment(&mut c.rng, &bytes, &gen::bounds_of(&before));
    let what = format!("{} as {:?}, {} good frames then wrongly masked {}", FR[rk], role, before.len(), f.short());
    c.note(what.clone());
    let variant = c.rng.below(12);
    let (v, _) = read_frames(rk, role, steps, before.len() + 1, None, variant)?;
    for (i, b) in before.iter().enumerate() {
        match v.get(i) {
            Some(R::F(d)) => cmp(&what, b, d)?,
            _ => viol!("{}: good frame {} was not read", what, i),
        }
    }
    match v.get(before.len()) {
        Some(R::E(_)) => {}
        Some(R::F(d)) => viol!("{}: it was read as {:?} {}", what, d.opcode, hex(&d.data)),
        _ => viol!("{}: no error reported", what),
    }
    c.ev("wrong_mask_refused", 1);
    c.eval(hash_s(&what) ^ hash(&f.payload));
    Ok(())
}

/// Frame headers written and read on their own.
fn header_case(c: &mut Case) -> Res {
    for _ in 0..200 {
        let len: u64 = match c.rng.below(5) {
            0 => c.rng.range(0, 130) as u64,
            1 => *c.rng.pick(&[125, 126, 127, 65535, 65536, 65537, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, u64::MAX]),
            2 => c.rng.range(126, 65535) as u64,
            3 => 1u64 << c.rng.below(64),
            _ => c.rng.u64(),
        };
        let op = c.rng.below(16) as u8;
        let mut flags = DataFrameFlags::from_bits_truncate((c.rng.below(16) as u8) << 4);
        if op >= 8 {
            flags.insert(DataFrameFlags::FIN);
        }
        let mk = c.rng.chance(1, 2);
        let mask = gen::mask_for(&mut c.rng, mk);
        let h = DataFrameHeader { flags, opcode: op, mask, len };
        let mut out = vec![];
        let r = write_header(&mut out, h);
        if op >= 8 && len > 125 {
            ensure!(r.is_err() && out.is_empty(), "header {:?}: not refused ({} bytes written)", h, out.len());
            continue;
        }
        ensure!(r.is_ok(), "writing header {:?} failed: {:?}", h, r);
        let mut f = F::new(h.flags.contains(DataFrameFlags::FIN), op, vec![]).masked(mask);
        f.rsv = (h.flags.contains(DataFrameFlags::RSV1) as u8) << 2 | (h.flags.contains(DataFrameFlags::RSV2) as u8) << 1 | h.flags.contains(DataFrameFlags::RSV3) as u8;
        ensure!(out == f.header(len), "header {:?} written as {} instead of {}", h, hex(&out), hex(&f.header(len)));
        let whole = out.len();
        out.extend_from_slice(&[0x5a, 0xa5]);
        let s = Scripted::new(gen::segment(&mut c.rng, &out, &[whole]).0, End::Eof);
        match read_header(&mut s.clone()) {
            Ok(g) => ensure!(g == h, "header {:?} read back as {:?}", h, g),
            Err(e) => viol!("reading header {:?} failed: {}", h, errclass(&e)),
        }
        ensure!(s.consumed() == whole, "reading header {:?} consumed {} of {} bytes", h, s.consumed(), whole);
        c.ev("headers", 1);
        c.eval(hash(&out));
    }
    Ok(())
}
/// DataFrame value itself: encoder through the typed codec, constructors.
fn codec_typed(c: &mut Case) -> Res {
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let n = c.rng.range(1, 8);
    let fs: Vec<F> = (0..n).map(|_| readable(&mut c.rng, c.idx % 6 == 0)).collect();
    let mut enc = DataFrameCodec::<Box<dyn DataFrameTrait>>::new(ctx_of(role));
    let mut buf = BytesMut::new();
    for f in &fs {
        let r = guard(|| {
            Ok(if c.rng.chance(1, 2) {
                enc.encode(Box::new(df_of(f)), &mut buf)
            } else {
                enc.encode(Box::new(Chunked::new(f, 1 + f.payload.len() / 3)), &mut buf)
            })
        })?;
        ensure!(r.is_ok(), "encoding {} failed", f.short());
    }
    let mut dec = DataFrameCodec::<DataFrame>::default(ctx_of(role.peer()));
    for f in &fs {
        match guard(|| Ok(dec.decode(&mut buf)))? {
            Ok(Some(d)) => cmp("DataFrameCodec -> DataFrameCodec", f, &d)?,
            _ => viol!("frame {} not decoded", f.short()),
        }
        let d = DataFrame::new(f.fin, Opcode::new(f.op).unwrap(), f.payload.clone());
        ensure!(d.finished == f.fin && d.reserved == [false; 3] && d.opcode as u8 == f.op && d.data == f.payload, "DataFrame::new changed {}", f.short());
        ensure!(d.take_payload() == f.payload, "take_payload of {}", f.short());
        c.ev("frames_round_tripped", 1);
    }
    ensure!(buf.is_empty(), "bytes left in the buffer");
    let mut h = 7u64;
    for f in &fs {
        h = h.rotate_left(5) ^ hash(&f.encode());
    }
    c.eval(h);
    Ok(())
}

pub fn run(x: &Ctx) {
    x.scale(8);
    x.rule("a case writes generated frames (all opcodes, flags, reserved bits, size boundaries) through one frame-writing interface under partial writes, feeds the bytes plus a random tail in random segments to one frame-reading interface in the matching role, and compares every field and what is left unread; other cases read single frames around a limit or with the wrong masking, and bare headers; distinct by content and interface pair");
    let np = (9 * 12 * 2) as u64;
    x.run("round_trip", np * x.q(150, 4000), |c| {
        let i = (c.idx % np) as usize;
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let (wk, rk) = (i / 2 % 9, i / 18);
        let n = c.rng.range(1, 6);
        let big = c.idx % 5 == 0;
        let fs: Vec<F> = (0..n).map(|_| readable(&mut c.rng, big)).collect();
        round_trip(c, wk, rk, role, &fs)
    });
    x.run("first_bytes", 24 * x.q(1, 9), |c| {
        let role = if c.idx % 2 == 0 { Role::Client } else { Role::Server };
        let rk = (c.idx / 2 % 12) as usize;
        let wk = ((c.idx / 24) as usize + rk) % 9;
        let mut fs = vec![];
        for b in 0..256u32 {
            if b & 0x88 == 8 {
                continue;
            }
            let mut f = F::new(b & 0x80 != 0, b as u8 & 15, c.rng.bytes((b % 9) as usize));
            f.rsv = (b >> 4 & 7) as u8;
            fs.push(f);
        }
        round_trip(c, wk, rk, role, &fs)
    });
    let mut lens: Vec<usize> = (0..=140).collect();
    lens.extend(250..=262);
    lens.extend(65530..=65542);
    lens.extend([1000, 4090, 4096, 8192, 8193, 16384, 70000, 131072, 1 << 20]);
    x.run("lengths", lens.len() as u64 * x.q(10, 200), |c| {
        let n = lens[c.idx as usize % lens.len()];
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        let (wk, rk) = (c.rng.below(9), c.rng.below(12));
        let mut f = F::new(c.rng.chance(1, 2), *c.rng.pick(&[0, 1, 2, 4]), gen::payload(&mut c.rng, n));
        f.rsv = c.rng.below(8) as u8;
        let g = readable(&mut c.rng, false);
        round_trip(c, wk, rk, role, &[f, g])
    });
    x.run("limits", 22 * x.q(400, 20000), |c| {
        let i = (c.idx % 22) as usize;
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        const L: [usize; 9] = [1, 3, 4, 5, 6, 7, 8, 9, 10];
        limit_case(c, L.get(i / 2).cloned().unwrap_or(11), role)
    });
    x.run("wrong_mask", 24 * x.q(400, 15000), |c| {
        let i = (c.idx % 24) as usize;
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        mask_case(c, i / 2, role)
    });
    x.run("headers", x.q(500, 20000), header_case);
    x.run("codec_typed", x.q(5000, 150000), codec_typed);
    x.need("frames_round_tripped", 10000);
    x.need("exact_consumption", 1000);
    x.need("within_limit", 100);
    x.need("over_limit", 100);
    x.need("wrong_mask_refused", 500);
    x.need("headers", 5000);
    let _ = handshake_bytes;
}
