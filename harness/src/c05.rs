//! C05: malformed frame sequences never become messages.
use crate::core::*;
use crate::gen;
use crate::recv::{self, Ev, Opts, RK};
use crate::stream::*;
use crate::wire::*;

pub const KINDS: [&str; 12] = [
    "reserved bit on data",
    "reserved bit on control",
    "reserved bit on continuation",
    "reserved data opcode",
    "reserved control opcode",
    "orphan continuation",
    "new data inside unfinished",
    "fragmented control",
    "long control",
    "16-bit length not shortest",
    "64-bit length not shortest",
    "mask direction",
];
const MARK: &[u8] = b"OFFENDING-PAYLOAD";

/// One offending frame of the kind; `open`: a fragmented message is in progress.
pub fn offender(r: &mut Rng, kind: usize, open: bool, masked: bool) -> Option<F> {
    let k = gen::mask_for(r, masked);
    let mark = |r: &mut Rng| {
        let mut p = MARK.to_vec();
        if r.chance(1, 4) {
            p.extend(vec![b'x'; r.below(80)]);
        }
        p
    };
    let fin = r.chance(1, 2);
    let data_op = if open { 0 } else { 1 + r.below(2) as u8 };
    let p = mark(r);
    let mut f = F::new(fin, data_op, p).masked(k);
    match kind {
        0 => {
            if open {
                return None;
            }
            f.rsv = r.range(1, 7) as u8;
            short(r, &mut f);
        }
        1 => {
            f.op = *r.pick(&[8, 9, 10]);
            f.fin = true;
            f.rsv = r.range(1, 7) as u8;
            if r.chance(1, 3) {
                f.payload = vec![];
            }
            if f.op == 8 && !f.payload.is_empty() {
                f.payload.splice(0..0, [3, 232]);
            }
        }
        2 => {
            if !open {
                return None;
            }
            f.rsv = r.range(1, 7) as u8;
            short(r, &mut f);
        }
        3 => f.op = r.range(3, 7) as u8,
        4 => {
            f.op = r.range(11, 15) as u8;
            f.fin = true;
            if r.chance(1, 3) {
                f.payload = vec![];
            }
        }
        5 => {
            if open {
                return None;
            }
            f.op = 0;
            if r.chance(1, 4) {
                f.payload = vec![];
            }
        }
        6 => {
            if !open {
                return None;
            }
            f.op = 1 + r.below(2) as u8;
            if r.chance(1, 4) {
                f.payload = vec![];
            }
        }
        7 => {
            f.op = *r.pick(&[8, 9, 10]);
            f.fin = false;
            if r.chance(1, 3) {
                f.payload = vec![];
            }
            if f.op == 8 && !f.payload.is_empty() {
                f.payload.splice(0..0, [3, 232]);
            }
        }
        8 => {
            f.op = *r.pick(&[8, 9, 10]);
            f.fin = true;
            let n = *r.pick(&[126, 127, 128, 200, 256, 1000, 65535, 65536, 65661]);
            let mut p = vec![b'a'; n];
            p[..MARK.len()].copy_from_slice(MARK);
            if f.op == 8 {
                p[0] = 3;
                p[1] = 232;
            }
            f.payload = p;
        }
        9 => {
            f.len = LenForm::L16;
            let n = *r.pick(&[0, 1, 20, 60, 124, 125]);
            f.payload = vec![b'q'; n];
            if r.chance(1, 3) {
                f.op = *r.pick(&[8, 9, 10]);
                f.fin = true;
                if f.op == 8 {
                    f.payload = vec![3; n];
                    if n == 1 {
                        f.payload = vec![];
                    }
                }
            }
        }
        10 => {
            f.len = LenForm::L64;
            let n = *r.pick(&[0, 1, 125, 126, 127, 1000, 65534, 65535]);
            f.payload = vec![b'q'; n];
            if n <= 125 && r.chance(1, 3) {
                f.op = *r.pick(&[9, 10]);
                f.fin = true;
            }
        }
        _ => {
            f.mask = if masked { None } else { Some(gen::key(r)) };
            if r.chance(1, 3) {
                f.op = *r.pick(&[9, 10]);
                f.fin = true;
            }
            if r.chance(1, 4) {
                f.payload = vec![];
            }
        }
    }
    Some(f)
}
fn short(r: &mut Rng, f: &mut F) {
    if r.chance(2, 5) {
        let n = r.below(14);
        f.payload.truncate(n);
    }
}
/// after an error of these kinds the blocking receiver has read exactly the offending frame
fn aligned(kind: usize) -> bool {
    !matches!(kind, 8 | 9 | 10 | 7)
}

fn case(c: &mut Case, rk: RK, role: Role, kind: usize, open: bool) -> Res {
    let masked = role.recv_masked();
    let ms = gen::msgs(&mut c.rng, 3, false);
    let inter = c.rng.below(5);
    let (mut fs, mut want) = gen::fragmented(&mut c.rng, &ms, masked, 3, inter);
    if open {
        let op = 1 + c.rng.below(2) as u8;
        let n = c.rng.range(1, 3);
        for i in 0..n {
            let k = gen::mask_for(&mut c.rng, masked);
            let sz = c.rng.below(5);
            fs.push(F::new(false, if i == 0 { op } else { 0 }, vec![b'o'; sz]).masked(k));
            if c.rng.chance(1, 3) {
                let m = gen::control(&mut c.rng);
                fs.push(gen::frame_of(&mut c.rng, &m, masked));
                want.push(m);
            }
        }
    }
    let bad = match offender(&mut c.rng, kind, open, masked) {
        Some(f) => f,
        None => return Ok(()),
    };
    let at = fs.len();
    fs.push(bad.clone());
    // perhaps valid control frames behind it, then whatever would complete a message, then a sentinel
    if c.rng.chance(1, 2) {
        let m = M::Ping(b"after".to_vec());
        fs.push(gen::frame_of(&mut c.rng, &m, masked));
    }
    for _ in 0..if c.rng.chance(1, 2) { c.rng.range(1, 4) } else { 0 } {
        let k = gen::mask_for(&mut c.rng, masked);
        let n = *c.rng.pick(&[0usize, 1, 3, 12, 40, 200]);
        fs.push(F::new(false, 0, vec![b'm'; n]).masked(k));
    }
    let k = gen::mask_for(&mut c.rng, masked);
    fs.push(F::new(true, 0, b"tail".to_vec()).masked(k));
    let sentinel = M::Text("SENTINEL".into());
    fs.push(gen::frame_of(&mut c.rng, &sentinel, masked));
    let data = encode_all(&fs);
    let r = ref_decode(&data, masked);
    let (off, why) = match r.bad {
        Some(x) => x,
        None => hfail!("oracle sees nothing wrong with a {}: {:?}", KINDS[kind], bad.short()),
    };
    let bounds = gen::bounds_of(&fs);
    let start = if at == 0 { 0 } else { bounds[at - 1] };
    if off != start {
        hfail!("oracle places the offence at {} not {} ({})", off, start, why);
    }
    let oracle: Vec<M> = r.msgs.iter().map(|m| m.0.clone()).collect();
    if oracle != want {
        hfail!("oracle prefix {} differs from generated {}", shorts(&oracle), shorts(&want));
    }
    let (steps, seg) = gen::segment(&mut c.rng, &data, &bounds);
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    o.extra = if aligned(kind) { 8 } else { 0 };
    c.note(format!("{:?}/{:?} {} at frame {} open {} {:?}: {:?}", rk, role, KINDS[kind], at, open, seg, fs.iter().map(|f| f.short()).collect::<Vec<_>>()));
    let got = recv::receive(rk, &o, steps, End::Block)?;
    let mut i = 0;
    let mut j = 0;
    let mut err = None;
    for e in &got.evs {
        match e {
            Ev::Msg(m) if i < want.len() => {
                ensure!(*m == want[i], "{:?}/{:?}: {} ({}): delivered {} where {} was due", rk, role, KINDS[kind], bad.short(), m.short(), want[i].short());
                i += 1;
            }
            Ev::Msg(m) => {
                // only individually valid control messages may still come before the error
                let ok = j < r.rest_ctrl.len() && r.rest_ctrl[j] == *m;
                ensure!(ok, "{:?}/{:?}: {} ({}) accepted: {} delivered (results {})", rk, role, KINDS[kind], bad.short(), m.short(), recv::evs(&got.evs));
                j += 1;
            }
            Ev::Err(s) => err = Some(s.clone()),
            Ev::Wait(w) => viol!("{:?}/{:?}: {} ({}): reported as a wait {}", rk, role, KINDS[kind], bad.short(), w),
            Ev::Idle | Ev::End => viol!(
                "{:?}/{:?}: {} ({}) was swallowed without an error (results {})",
                rk,
                role,
                KINDS[kind],
                bad.short(),
                recv::evs(&got.evs)
            ),
        }
    }
    ensure!(err.is_some(), "no error");
    ensure!(
        i == want.len(),
        "{:?}/{:?}: {} ({}): error {:?} after only {} of {} messages completed before the offence",
        rk,
        role,
        KINDS[kind],
        bad.short(),
        err,
        i,
        want.len()
    );
    for e in &got.after {
        if let Ev::Msg(m) = e {
            let p = m.payload();
            ensure!(
                !p.windows(MARK.len()).any(|w| w == MARK),
                "{:?}/{:?}: {} ({}): {} built from the offending frame was delivered after the error",
                rk,
                role,
                KINDS[kind],
                bad.short(),
                m.short()
            );
        }
    }
    c.ev("offences", 1);
    c.ev("messages_before_offence", want.len() as u64);
    c.ev(if open { "inside_message" } else { "between_messages" }, 1);
    c.seen("kind", kind as u64);
    c.seen("kind_interface", (kind * 100 + rk as usize * 2 + role as usize) as u64);
    c.seen("error", hash_s(&err.unwrap_or_default()));
    c.eval(hash(&data) ^ rk as u64);
    c.sample(|| format!("{} {:?}/{:?}: {:?}", KINDS[kind], rk, role, fs.iter().map(|f| f.short()).collect::<Vec<_>>()));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.scale(8);
    x.rule("a case builds valid frames, one frame breaking one rule, a completing continuation and a sentinel message; every message complete before the offence must be delivered, then an error, and neither the sentinel nor anything containing the offending payload; distinct by frame bytes and interface");
    let nk = KINDS.len() as u64;
    let per = nk * 32 * 2;
    x.run("offences", per * x.q(60, 3000), |c| {
        let kind = (c.idx % nk) as usize;
        let i = (c.idx / nk % 32) as usize;
        let rk = recv::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let open = c.idx / nk / 32 % 2 == 0;
        case(c, rk, role, kind, open)
    });
    // every pair of first two header bytes as the first frame: either an ordinary frame or refused
    x.run("headers", 32 * x.q(1, 8), |c| {
        let i = (c.idx % 32) as usize;
        let rk = recv::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let masked = role.recv_masked();
        let step = if c.tier == Tier::Quick { 5 } else { 1 };
        let mut w = c.rng.below(step);
        while w < 65536 {
            let b0 = (w >> 8) as u8;
            let b1 = w as u8;
            w += step;
            let mut f = F::new(b0 & 0x80 != 0, b0 & 15, vec![]);
            f.rsv = b0 >> 4 & 7;
            f.mask = if b1 & 0x80 != 0 { Some(gen::key(&mut c.rng)) } else { None };
            let l7 = b1 & 0x7f;
            let n = match l7 {
                126 => {
                    f.len = LenForm::L16;
                    *c.rng.pick(&[0usize, 125, 126, 200, 300])
                }
                127 => {
                    f.len = LenForm::L64;
                    *c.rng.pick(&[0usize, 125, 126, 65535, 65536])
                }
                n => n as usize,
            };
            f.payload = vec![b'h'; n];
            let mut fs = vec![f.clone()];
            let k = gen::mask_for(&mut c.rng, masked);
            fs.push(F::new(true, 0, b"tail".to_vec()).masked(k));
            let m = M::Ping(b"SENTINEL".to_vec());
            fs.push(gen::frame_of(&mut c.rng, &m, masked));
            let data = encode_all(&fs);
            let r = ref_decode(&data, masked);
            let mut o = Opts::new(role);
            o.variant = c.rng.below(12);
            let got = recv::receive(rk, &o, vec![Step::Data(data)], End::Block)?;
            let first_bad = r.bad.map(|b| b.0 == 0).unwrap_or(false) && judge(&f, masked, false).is_some();
            for e in &got.evs {
                if let Ev::Msg(m) = e {
                    let allowed = r.msgs.iter().any(|x| x.0 == *m) || r.rest_ctrl.contains(m);
                    ensure!(allowed, "{:?}/{:?}: header {:02x} {:02x} ({}): delivered {}", rk, role, b0, b1, f.short(), m.short());
                }
            }
            if r.bad.is_some() {
                ensure!(got.last_bad(), "{:?}/{:?}: header {:02x} {:02x} ({}): no error: {}", rk, role, b0, b1, f.short(), recv::evs(&got.evs));
            }
            let have = got.msgs();
            for (m, _) in &r.msgs {
                ensure!(have.contains(m), "{:?}/{:?}: header {:02x} {:02x} ({}): {} not delivered: {}", rk, role, b0, b1, f.short(), m.short(), recv::evs(&got.evs));
            }
            c.ev(if first_bad { "bad_headers" } else { "good_headers" }, 1);
            c.seen("header_pair", (b0 as u64) << 8 | b1 as u64);
        }
        c.eval(c.idx);
        Ok(())
    });
    x.need("offences", 5000);
    x.need("inside_message", 1000);
    x.need("bad_headers", 10000);
}
