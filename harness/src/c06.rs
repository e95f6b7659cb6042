//! C06: only and all valid UTF-8 is delivered as text.
use crate::core::*;
use crate::crypto::utf8_valid;
use crate::gen;
use crate::recv::{self, Ev, Opts, RK};
use crate::stream::*;
use crate::wire::*;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::ws::Message as _;
use websocket::{Message, OwnedMessage};

/// byte strings around every boundary of the UTF-8 definition
fn specimens() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for cp in [
        0u32, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000,
        0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff,
    ] {
        let mut b = [0; 4];
        v.push(char::from_u32(cp).unwrap().encode_utf8(&mut b).as_bytes().to_vec());
    }
    let bad: [&[u8]; 44] = [
        &[0x80], &[0xbf], &[0xc0], &[0xc1], &[0xc0, 0x80], &[0xc0, 0xaf], &[0xc1, 0xbf], &[0xc2], &[0xc2, 0x7f], &[0xc2, 0xc0], &[0xdf],
        &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xe0], &[0xe0, 0xa0], &[0xe1, 0x80], &[0xed, 0xa0, 0x80], &[0xed, 0xaf, 0xbf],
        &[0xed, 0xb0, 0x80], &[0xed, 0xbf, 0xbf], &[0xed, 0xa0, 0xbd, 0xed, 0xb8, 0x80], &[0xef, 0xbf], &[0xf0, 0x80, 0x80, 0x80],
        &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf0, 0x90, 0x80], &[0xf0, 0x90], &[0xf0], &[0xf4, 0x90, 0x80, 0x80], &[0xf4, 0xbf, 0xbf, 0xbf],
        &[0xf5, 0x80, 0x80, 0x80], &[0xf7, 0xbf, 0xbf, 0xbf], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xfc, 0x84, 0x80, 0x80, 0x80, 0x80], &[0xfe],
        &[0xff], &[0xff, 0xfe], &[0xe2, 0x82, 0x28], &[0xe2, 0x28, 0xa1], &[0xf0, 0x28, 0x8c, 0xbc], &[0xf0, 0x90, 0x28, 0xbc],
        &[0xf0, 0x28, 0x8c, 0x28], &[0xe2, 0x82, 0xac, 0x80], &[0xc3, 0xa9, 0xa9], &[0xf3, 0xa0, 0x81],
    ];
    for b in bad.iter() {
        v.push(b.to_vec());
    }
    v
}

fn expect(c: &mut Case, rk: RK, role: Role, fs: &[F]) -> Res {
    let masked = role.recv_masked();
    let data = encode_all(fs);
    let bounds = gen::bounds_of(fs);
    let r = ref_decode(&data, masked);
    let want: Vec<M> = r.msgs.iter().map(|m| m.0.clone()).collect();
    let (steps, seg) = gen::segment(&mut c.rng, &data, &bounds);
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    let got = recv::receive(rk, &o, steps, End::Block)?;
    let ms = got.msgs();
    let show = || {
        fs.iter().map(|f| format!("{}{}", f.short(), hex(&f.payload[..f.payload.len().min(40)]))).collect::<Vec<_>>()
    };
    if r.bad.is_some() {
        let extra_ok = ms.len() >= want.len() && ms[..want.len()] == want[..] && ms.len() == want.len();
        ensure!(
            extra_ok && got.last_bad(),
            "{:?}/{:?} ({:?}): invalid UTF-8 in {:?}: expected {} then an error, got {}",
            rk,
            role,
            seg,
            show(),
            shorts(&want),
            recv::evs(&got.evs)
        );
        c.ev("invalid_refused", 1);
    } else {
        ensure!(
            ms == want && matches!(got.evs.last(), Some(Ev::Idle)),
            "{:?}/{:?} ({:?}): valid text {:?}: expected {} got {}",
            rk,
            role,
            seg,
            show(),
            shorts(&want),
            recv::evs(&got.evs)
        );
        c.ev("valid_delivered", 1);
    }
    c.eval(hash(&data) ^ rk as u64);
    Ok(())
}
fn rk_role(i: u64) -> (RK, Role) {
    (recv::ALL[(i / 2 % 16) as usize], if i % 2 == 0 { Role::Client } else { Role::Server })
}
/// text (possibly fragmented anywhere) or close carrying `p`, then a sentinel ping
fn frames(r: &mut Rng, p: &[u8], close: bool, masked: bool, frag: usize) -> Vec<F> {
    let mut fs = vec![];
    if close {
        let mut b = r.pick(&gen::CODES).to_be_bytes().to_vec();
        b.extend_from_slice(p);
        let k = gen::mask_for(r, masked);
        fs.push(F::new(true, 8, b).masked(k));
    } else {
        let parts = gen::split_payload(r, p, frag);
        let n = parts.len();
        for (i, q) in parts.into_iter().enumerate() {
            let k = gen::mask_for(r, masked);
            fs.push(F::new(i + 1 == n, if i == 0 { 1 } else { 0 }, q).masked(k));
        }
    }
    let k = gen::mask_for(r, masked);
    fs.push(F::new(true, 9, b"sentinel".to_vec()).masked(k));
    fs
}
fn direct(p: &[u8]) -> Res {
    let v = utf8_valid(p);
    let mk = |op, d: Vec<u8>| vec![DataFrame::new(true, op, d)];
    let a = OwnedMessage::from_dataframes(mk(Opcode::Text, p.to_vec()));
    let b = Message::from_dataframes(mk(Opcode::Text, p.to_vec()));
    ensure!(a.is_ok() == v && b.is_ok() == v, "text {} is {}valid UTF-8 but conversion says {:?} / {:?}", hex(p), if v { "" } else { "in" }, a.is_ok(), b.is_ok());
    if let (Ok(a), Ok(b)) = (&a, &b) {
        ensure!(M::of(a).payload() == p && &b.payload[..] == p && M::of(a).op() == 1, "text {} delivered as {:?}", hex(p), a);
    }
    let mut d = vec![3, 232];
    d.extend_from_slice(p);
    let a = OwnedMessage::from_dataframes(mk(Opcode::Close, d.clone()));
    let b = Message::from_dataframes(mk(Opcode::Close, d.clone()));
    ensure!(a.is_ok() == v && b.is_ok() == v, "close reason {} is {}valid UTF-8 but conversion says {:?} / {:?}", hex(p), if v { "" } else { "in" }, a.is_ok(), b.is_ok());
    if let Ok(a) = &a {
        ensure!(M::of(a).payload() == d, "close reason {} delivered as {:?}", hex(p), a);
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    x.scale(15);
    x.rule("a case sends a text payload or close reason built around a boundary of the UTF-8 definition, fragmented and segmented at generated points inside characters, followed by a sentinel, to one receive interface; an independent UTF-8 automaton decides whether the message must be delivered or refused; non-trivial: all; distinct by frame bytes and interface");
    let sp = specimens();
    let nsp = sp.len() as u64;
    // each specimen: alone / before / after / between valid text, each cut position
    x.run("specimens", nsp * 32 * x.q(12, 300), |c| {
        let p = &sp[(c.idx % nsp) as usize];
        let (rk, role) = rk_role(c.idx / nsp);
        let na = c.rng.below(7);
        let nb = c.rng.below(7);
        let mut b = match c.rng.below(3) {
            0 => vec![],
            _ => gen::utf8(&mut c.rng, na).into_bytes(),
        };
        b.extend_from_slice(p);
        if c.rng.chance(2, 3) {
            b.extend(gen::utf8(&mut c.rng, nb).bytes());
        }
        if c.rng.chance(1, 10) {
            // two specimens
            let q = c.rng.pick(&sp).clone();
            b.extend(q);
        }
        let close = c.rng.chance(1, 4);
        let frag = c.rng.range(1, 6);
        let fs = frames(&mut c.rng, &b, close, role.recv_masked(), frag);
        c.seen("specimen_interface", c.idx % (nsp * 32));
        expect(c, rk, role, &fs)?;
        c.sample(|| format!("{:?}/{:?} {}: {}", rk, role, if close { "close" } else { "text" }, hex(&b)));
        Ok(())
    });
    // every fragment boundary and every pair of them inside a short text with 1-4 byte characters
    let t = "a\u{e9}\u{20ac}\u{1f600}z".as_bytes().to_vec();
    let n = t.len() as u64 + 1;
    x.run("cuts", n * n * 32, |c| {
        let (a, b) = ((c.idx % n) as usize, (c.idx / n % n) as usize);
        if a > b {
            return Ok(());
        }
        let (rk, role) = rk_role(c.idx / n / n);
        let masked = role.recv_masked();
        for bad in [false, true] {
            let mut t = t.clone();
            if bad {
                let i = c.rng.range(1, t.len() - 1);
                t[i] ^= *c.rng.pick(&[0x40, 0x80, 0xc0]);
            }
            let parts = [&t[..a], &t[a..b], &t[b..]];
            let mut fs = vec![];
            for (i, p) in parts.iter().enumerate() {
                let k = gen::mask_for(&mut c.rng, masked);
                fs.push(F::new(i == 2, if i == 0 { 1 } else { 0 }, p.to_vec()).masked(k));
            }
            let k = gen::mask_for(&mut c.rng, masked);
            fs.push(F::new(true, 9, b"sentinel".to_vec()).masked(k));
            expect(c, rk, role, &fs)?;
        }
        c.ev("cut_pairs", 1);
        Ok(())
    });
    // long payloads with one damaged byte somewhere
    x.run("long", 32 * x.q(20, 800), |c| {
        let (rk, role) = rk_role(c.idx);
        let n = *c.rng.pick(&[100, 126, 1000, 4096, 8192, 65536, 70000]);
        let mut p = gen::utf8(&mut c.rng, n).into_bytes();
        match c.rng.below(4) {
            0 => {}
            1 => {
                p.pop();
            }
            _ => {
                let i = *c.rng.pick(&[0, p.len() / 2, p.len() - 1, p.len() - 2]);
                p[i] = *c.rng.pick(&[0xff, 0x80, 0xc0, 0xe2, 0xf0]);
            }
        }
        let frag = c.rng.range(1, 9);
        let fs = frames(&mut c.rng, &p, false, role.recv_masked(), frag);
        expect(c, rk, role, &fs)
    });
    // megabytes of text, whole or in fragments, with and without damage
    x.run_t("large", 32 * x.q(2, 24), 4, |c| {
        let (rk, role) = rk_role(c.idx);
        let masked = role.recv_masked();
        let n = *c.rng.pick(&[200_000usize, 1 << 20, (1 << 20) + 1, 1_500_000, 1 << 21, 3_000_000]);
        let unit: &[u8] = *c.rng.pick(&[&b"plain ascii text "[..], "\u{e9}a".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}bc".as_bytes()]);
        let mut p = Vec::with_capacity(n + 8);
        while p.len() < n {
            p.extend_from_slice(unit);
        }
        let bad = c.rng.chance(2, 3);
        if bad {
            if c.rng.chance(1, 4) {
                p.extend_from_slice(&[0xe2, 0x82]);
            } else {
                let i = match c.rng.below(3) {
                    0 => c.rng.below(p.len()),
                    1 => p.len() - 1,
                    _ => 0,
                };
                p[i] = *c.rng.pick(&[0xff, 0xc0, 0xf8]);
            }
        }
        let valid = utf8_valid(&p);
        let parts = if c.rng.chance(1, 2) { vec![p.clone()] } else { gen::split_payload(&mut c.rng, &p, 4) };
        let np = parts.len();
        let mut data = Vec::with_capacity(n + 100);
        for (i, q) in parts.into_iter().enumerate() {
            let k = gen::mask_for(&mut c.rng, masked);
            data.extend(F::new(i + 1 == np, if i == 0 { 1 } else { 0 }, q).masked(k).encode());
        }
        let k = gen::mask_for(&mut c.rng, masked);
        data.extend(F::new(true, 9, b"sentinel".to_vec()).masked(k).encode());
        let steps = data.chunks(c.rng.range(60_000, 1_000_000)).map(|d| Step::Data(d.to_vec())).collect();
        let mut o = Opts::new(role);
        o.variant = c.rng.below(12);
        let got = recv::receive(rk, &o, steps, End::Block)?;
        let what = format!("{:?}/{:?}: a text of {} bytes in {} frames, {}valid", rk, role, p.len(), np, if valid { "" } else { "in" });
        let ms = got.msgs();
        if valid {
            let ok = ms.len() == 2 && ms[0].op() == 1 && ms[0].payload() == p && ms[1] == M::Ping(b"sentinel".to_vec());
            ensure!(ok && got.evs.last() == Some(&Ev::Idle), "{}: delivered {} then {:?}", what, shorts(&ms), got.evs.last().map(|e| e.short()));
            c.ev("large_valid", 1);
        } else {
            ensure!(ms.is_empty() && got.last_bad(), "{}: delivered {}", what, shorts(&ms));
            c.ev("large_invalid", 1);
        }
        c.eval(hash(&data) ^ rk as u64);
        Ok(())
    });
    // close reasons of every length, ended by a whole character, a piece of one or a damaged one
    x.run("reasons", 32 * 124, |c| {
        let n = (c.idx % 124) as usize;
        let (rk, role) = rk_role(c.idx / 124);
        let tail: &[u8] = *c.rng.pick(&[
            &[][..], &[0xc3], &[0xc3, 0xa9], &[0xe2], &[0xe2, 0x82], &[0xe2, 0x82, 0xac], &[0xf0], &[0xf0, 0x9f], &[0xf0, 0x9f, 0x98],
            &[0xf0, 0x9f, 0x98, 0x80], &[0x80], &[0xff],
        ]);
        for t in [tail, &[0xe2, 0x82][..], &[0xf0, 0x9f, 0x98]] {
            if t.len() > n {
                continue;
            }
            let mut p = if c.rng.chance(1, 2) { vec![b'r'; n - t.len()] } else { gen::utf8(&mut c.rng, n - t.len()).into_bytes() };
            p.truncate(n - t.len());
            p.extend_from_slice(t);
            let fs = frames(&mut c.rng, &p, true, role.recv_masked(), 1);
            expect(c, rk, role, &fs)?;
            direct(&p)?;
        }
        c.ev("reason_lengths", 1);
        Ok(())
    });
    // exhaustive short strings through the conversion itself
    x.run("exhaustive2", 256, |c| {
        let a = c.idx as u8;
        direct(&[a])?;
        for b in 0..=255u8 {
            direct(&[a, b])?;
            direct(&[b'x', a, b, b'y'])?;
        }
        c.ev("exhaustive_strings", 513);
        c.eval(c.idx);
        Ok(())
    });
    let step = x.q(4, 1) as usize;
    x.run("exhaustive34", 64, |c| {
        // all three- and four-byte strings starting with 0xc0..=0xff, the later bytes sampled in quick
        let lead = 0xc0 + c.idx as u8;
        let edge: Vec<u8> = (0..=255u8).filter(|b| step == 1 || b % 16 == 0 || b % 16 == 15 || (*b as usize) % step == 0).collect();
        for &b in &edge {
            for &d in &edge {
                direct(&[lead, b, d])?;
                if c.tier == Tier::Thorough || (b % 16 == 0 || b % 16 == 15) {
                    for e in [0u8, 0x7f, 0x80, 0xbf, 0xc0, 0xff] {
                        direct(&[lead, b, d, e])?;
                    }
                }
                c.ev("exhaustive_strings", 7);
            }
        }
        c.eval(c.idx);
        Ok(())
    });
    // malformed close payloads
    x.run("close_short", 32, |c| {
        let (rk, role) = rk_role(c.idx);
        let masked = role.recv_masked();
        for b in 0..=255u8 {
            let k = gen::mask_for(&mut c.rng, masked);
            let k2 = gen::mask_for(&mut c.rng, masked);
            let fs = [F::new(true, 8, vec![b]).masked(k), F::new(true, 9, vec![1]).masked(k2)];
            let o = Opts::new(role);
            let got = recv::receive(rk, &o, vec![Step::Data(encode_all(&fs))], End::Block)?;
            ensure!(got.msgs().is_empty() && got.last_bad(), "{:?}/{:?}: close with the one-byte payload {:02x}: {}", rk, role, b, recv::evs(&got.evs));
        }
        c.ev("one_byte_closes", 256);
        c.eval(c.idx);
        Ok(())
    });
    x.need("invalid_refused", 2000);
    x.need("valid_delivered", 2000);
    x.need("cut_pairs", 1000);
    x.need("large_valid", 10);
    x.need("large_invalid", 15);
    x.need("reason_lengths", 3000);
}
