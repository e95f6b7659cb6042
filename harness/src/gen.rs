//! Generators: payloads, messages, fragmentations, transport segmentations.
use crate::core::Rng;
use crate::stream::*;
use crate::wire::*;
use std::io::ErrorKind;

pub const EDGE: [usize; 30] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 31, 63, 64, 123, 124, 125, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 4089, 4095, 4096, 4097,
];
pub const EDGE_BIG: [usize; 14] =
    [8181, 8191, 8192, 8193, 16384, 32768, 65529, 65533, 65534, 65535, 65536, 65537, 65541, 70000];

pub fn size(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 12 } else { 10 }) {
        0..=3 => r.below(20),
        4..=6 => *r.pick(&EDGE),
        7..=8 => r.below(600),
        9 => r.below(5000),
        _ => *r.pick(&EDGE_BIG),
    }
}
pub fn utf8(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let mode = r.below(4);
    while s.len() < n {
        let left = n - s.len();
        let k = if mode == 0 { 1 } else { r.range(1, 4).min(left) };
        let c = match k {
            1 => {
                if r.chance(1, 12) {
                    *r.pick(&['\0', '\n', '\r', '\u{7f}', '"', '\\'])
                } else {
                    (r.range(0x20, 0x7e) as u8) as char
                }
            }
            2 => char::from_u32(*r.pick(&[0x80, 0x7ff, 0xe9, 0x3a9, 0x100 + (0x123 & 0x6ff)])).unwrap_or('\u{e9}'),
            3 => char::from_u32(*r.pick(&[0x800, 0xffff, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x1000])).unwrap_or('\u{20ac}'),
            _ => char::from_u32(*r.pick(&[0x10000, 0x10ffff, 0x1f600, 0x40000, 0xfffff])).unwrap_or('\u{1f600}'),
        };
        s.push(c);
    }
    s
}
pub fn payload(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0u8; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        // bytes that look like frame headers or HTTP heads
        3 => {
            let pat: &[u8] = b"\x81\x7e\x00\x7d\r\n\r\n\x88\x80\x00\x00";
            (0..n).map(|i| pat[i % pat.len()]).collect()
        }
        _ => r.bytes(n),
    }
}
pub const CODES: [u16; 18] =
    [0, 1, 255, 256, 999, 1000, 1001, 1002, 1003, 1005, 1006, 1007, 1011, 1015, 3000, 4999, 0x8000, 65535];
pub fn msg(r: &mut Rng, big: bool) -> M {
    match r.below(10) {
        0..=2 => {
            let n = size(r, big);
            M::Text(utf8(r, n))
        }
        3..=5 => {
            let n = size(r, big);
            M::Bin(payload(r, n))
        }
        _ => control(r),
    }
}
pub fn csize(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => 0,
        1 => *r.pick(&[1, 2, 3, 4, 5, 120, 122, 123, 124, 125]),
        _ => r.below(126),
    }
}
pub fn control(r: &mut Rng) -> M {
    match r.below(6) {
        0 | 1 => {
            let n = csize(r);
            M::Ping(payload(r, n))
        }
        2 | 3 => {
            let n = csize(r);
            M::Pong(payload(r, n))
        }
        4 => {
            if r.chance(1, 3) {
                M::Close(None)
            } else {
                let c = if r.chance(1, 3) { r.below(65536) as u16 } else { *r.pick(&CODES) };
                let n = csize(r).saturating_sub(2).min(123);
                M::Close(Some((c, utf8(r, n))))
            }
        }
        _ => M::Ping(vec![]),
    }
}
pub fn msgs(r: &mut Rng, maxn: usize, big: bool) -> Vec<M> {
    let n = r.below(maxn + 1);
    let mut v = vec![];
    let mut total = 0usize;
    for _ in 0..n {
        let m = msg(r, big && total < 150_000);
        total += m.payload().len();
        v.push(m);
    }
    v
}
pub fn key(r: &mut Rng) -> [u8; 4] {
    match r.below(8) {
        0 => [0, 0, 0, 0],
        1 => [0xff; 4],
        2 => [0, 0, 0, r.u64() as u8],
        3 => [r.u64() as u8, 0, 0, 0],
        4 => [0, r.u64() as u8, 0, 1],
        _ => {
            let b = r.bytes(4);
            [b[0], b[1], b[2], b[3]]
        }
    }
}
pub fn mask_for(r: &mut Rng, masked: bool) -> Option<[u8; 4]> {
    if masked {
        Some(key(r))
    } else {
        None
    }
}
pub fn frame_of(r: &mut Rng, m: &M, masked: bool) -> F {
    let k = mask_for(r, masked);
    F::new(true, m.op(), m.payload()).masked(k)
}
/// Split a payload at random points into 1..=maxfrag pieces (pieces may be empty).
pub fn split_payload(r: &mut Rng, p: &[u8], maxfrag: usize) -> Vec<Vec<u8>> {
    let n = r.range(1, maxfrag);
    let mut cuts: Vec<usize> = (0..n - 1)
        .map(|_| match r.below(5) {
            0 => 0,
            1 => p.len(),
            _ => r.below(p.len() + 1),
        })
        .collect();
    cuts.sort_unstable();
    let mut out = vec![];
    let mut a = 0;
    for c in cuts {
        out.push(p[a..c].to_vec());
        a = c;
    }
    out.push(p[a..].to_vec());
    out
}
/// Frames for a message list: data messages fragmented with interleaved controls. Returns frames and the
/// messages in delivery order.
pub fn fragmented(r: &mut Rng, ms: &[M], masked: bool, maxfrag: usize, inter: usize) -> (Vec<F>, Vec<M>) {
    let mut fs = vec![];
    let mut exp = vec![];
    for m in ms {
        if m.is_control() || r.chance(1, 4) {
            fs.push(frame_of(r, m, masked));
            exp.push(m.clone());
            continue;
        }
        let parts = split_payload(r, &m.payload(), maxfrag);
        let n = parts.len();
        for (i, p) in parts.into_iter().enumerate() {
            if i > 0 {
                let mut budget = 3;
                while budget > 0 && r.chance(inter, 10) {
                    let c = control(r);
                    fs.push(frame_of(r, &c, masked));
                    exp.push(c);
                    budget -= 1;
                }
            }
            let k = mask_for(r, masked);
            fs.push(F::new(i + 1 == n, if i == 0 { m.op() } else { 0 }, p).masked(k));
        }
        exp.push(m.clone());
    }
    (fs, exp)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Seg {
    Whole,
    Bytes,
    Tiny,
    Random,
    Big,
    Frames,
    NearFrames,
}
pub const SEGS: [Seg; 7] = [Seg::Whole, Seg::Bytes, Seg::Tiny, Seg::Random, Seg::Big, Seg::Frames, Seg::NearFrames];

/// Cut points for the data; `bounds` are frame boundaries.
pub fn cuts(r: &mut Rng, len: usize, bounds: &[usize], seg: Seg) -> Vec<usize> {
    let mut c: Vec<usize> = vec![];
    match seg {
        Seg::Whole => {}
        Seg::Bytes => {
            if len <= 6000 {
                c = (1..len).collect()
            } else {
                c = (1..1500).collect();
                c.extend(len - 1500..len);
            }
        }
        Seg::Tiny => {
            let mut p = 0;
            while p < len && c.len() < 6000 {
                p += r.range(1, 5);
                c.push(p)
            }
        }
        Seg::Random => {
            let n = r.below(12);
            c = (0..n).map(|_| r.below(len + 1)).collect()
        }
        Seg::Big => {
            let mut p = 0;
            while p < len {
                p += *r.pick(&[1000, 4095, 4096, 4097, 8192, 8193, 3]);
                c.push(p)
            }
        }
        Seg::Frames => c = bounds.to_vec(),
        Seg::NearFrames => {
            for b in bounds {
                c.push((b + r.below(16)).saturating_sub(2));
                if r.chance(1, 3) {
                    c.push(b + r.below(4))
                }
            }
        }
    }
    c.retain(|&x| x > 0 && x < len);
    c.sort_unstable();
    c.dedup();
    c
}
pub fn at_cuts(data: &[u8], cuts: &[usize]) -> Vec<Step> {
    let mut v = vec![];
    let mut a = 0;
    for &c in cuts {
        v.push(Step::Data(data[a..c].to_vec()));
        a = c;
    }
    if a < data.len() {
        v.push(Step::Data(data[a..].to_vec()));
    }
    v
}
pub fn segment(r: &mut Rng, data: &[u8], bounds: &[usize]) -> (Vec<Step>, Seg) {
    let seg = *r.pick(&SEGS);
    let c = cuts(r, data.len(), bounds, seg);
    (at_cuts(data, &c), seg)
}
/// insert waits between any steps
pub fn with_waits(r: &mut Rng, steps: Vec<Step>, kinds: &[ErrorKind], num: usize, den: usize) -> Vec<Step> {
    let mut v = vec![];
    for s in steps {
        while r.chance(num, den) {
            v.push(Step::Err(*r.pick(kinds)));
        }
        v.push(s);
    }
    v
}
pub fn bounds_of(fs: &[F]) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 0;
    for f in fs {
        p += f.encode().len();
        v.push(p);
    }
    v
}
pub fn wplan(r: &mut Rng, asy: bool) -> (Vec<W>, Vec<bool>) {
    let mode = r.below(6);
    let mut p = vec![];
    match mode {
        0 => return (vec![], vec![]),
        1 => p.push(W::Accept(1)),
        2 => {
            for _ in 0..r.range(1, 6) {
                p.push(W::Accept(r.range(1, 9)))
            }
        }
        _ => {
            for _ in 0..r.range(1, 8) {
                match r.below(6) {
                    0 => p.push(W::Err(ErrorKind::Interrupted)),
                    1 if asy => p.push(W::Err(ErrorKind::WouldBlock)),
                    2 => p.push(W::Accept(r.range(1, 4000))),
                    3 => p.push(W::Accept(r.range(1, 140))),
                    _ => p.push(W::Accept(r.range(1, 20))),
                }
            }
            p.push(W::Accept(r.range(1, 70000)));
        }
    }
    if asy {
        // tokio-io treats Interrupted on write as an error: keep only would-block there
        for w in p.iter_mut() {
            if *w == W::Err(ErrorKind::Interrupted) {
                *w = W::Err(ErrorKind::WouldBlock)
            }
        }
    }
    let mut f = vec![];
    if asy && r.chance(1, 2) {
        for _ in 0..r.range(1, 4) {
            f.push(r.chance(1, 2))
        }
        f.push(true);
    }
    (p, f)
}
pub fn fp(ms: &[M]) -> u64 {
    let mut h = 0x1234u64;
    for m in ms {
        h = h.rotate_left(7).wrapping_mul(0x9E3779B97F4A7C15) ^ crate::core::hash(&m.payload()) ^ ((m.op() as u64) << 56);
    }
    h
}
