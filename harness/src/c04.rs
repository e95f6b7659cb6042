//! C04: fragmented messages are reassembled exactly, controls interleaved.
use crate::core::*;
use crate::gen;
use crate::recv::{self, Ev, Opts, RK};
use crate::stream::*;
use crate::wire::*;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::receiver::Receiver;
use websocket::ws::dataframe::DataFrame as _;
use websocket::ws::Receiver as _;
use websocket::ws::Message as _;
use websocket::{Message, OwnedMessage};

fn expect(c: &mut Case, rk: RK, o: &Opts, fs: &[F], want: &[M], end: End) -> Res {
    let data = encode_all(fs);
    let b = gen::bounds_of(fs);
    let (steps, seg) = gen::segment(&mut c.rng, &data, &b);
    c.note(format!(
        "{:?}/{:?} {:?} frames {:?}",
        rk,
        o.role,
        seg,
        fs.iter().take(60).map(|f| f.short()).collect::<Vec<_>>()
    ));
    let got = recv::receive(rk, o, steps, end)?;
    let ms = got.msgs();
    ensure!(
        ms == want,
        "{:?}/{:?} ({:?}): expected {} delivered {} (results {})",
        rk,
        o.role,
        seg,
        shorts(want),
        shorts(&ms),
        recv::evs(&got.evs)
    );
    match (end, got.evs.last()) {
        (End::Block, Some(Ev::Idle)) => {}
        (End::Eof, Some(Ev::End)) => {}
        (End::Eof, Some(Ev::Err(e))) if !rk.is_async() && e == "NoData" => {}
        (_, e) => viol!("{:?}/{:?}: valid fragmented traffic ended with {:?}", rk, o.role, e),
    }
    c.seen("segmentation", hash_s(&format!("{:?}", seg)));
    c.seen("interface", hash_s(&format!("{:?}{:?}", rk, o.role)));
    Ok(())
}
fn end_of(c: &mut Case) -> End {
    if c.rng.chance(1, 2) {
        End::Block
    } else {
        End::Eof
    }
}

pub fn run(x: &Ctx) {
    x.scale(15);
    x.rule("a case fragments generated messages at generated points with control frames between fragments, feeds the frames under a generated read segmentation to one receive interface and compares the delivered sequence with the one implied by the order of final fragments and controls; timeliness cases stop the stream right behind each frame; non-trivial: at least one message in two or more fragments; distinct by message list, fragmentation, interface and role");
    let per = (recv::ALL.len() * 2) as u64;
    x.run("random", per * x.q(400, 20000), |c| {
        let i = (c.idx % per) as usize;
        let rk = recv::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let mut o = Opts::new(role);
        o.variant = c.rng.below(12);
        let mut ms = gen::msgs(&mut c.rng, 6, c.idx % 8 == 0);
        let m = gen::msg(&mut c.rng, false);
        ms.push(m);
        let maxfrag = *c.rng.pick(&[2, 3, 5, 9, 30]);
        let inter = c.rng.below(8);
        let (fs, want) = gen::fragmented(&mut c.rng, &ms, role.recv_masked(), maxfrag, inter);
        let nfrag = fs.iter().filter(|f| !f.fin).count() as u64;
        c.ev("fragments", nfrag);
        c.ev("messages", want.len() as u64);
        let mut open = false;
        for f in &fs {
            if f.op < 8 {
                open = !f.fin
            } else if open {
                c.ev("interleaved_controls", 1)
            }
        }
        let end = end_of(c);
        expect(c, rk, &o, &fs, &want, end)?;
        if nfrag == 0 {
            c.eval_trivial()
        } else {
            c.eval(gen::fp(&want) ^ nfrag << 32 ^ i as u64);
        }
        c.sample(|| format!("{:?} {:?}: {:?}", rk, role, fs.iter().map(|f| f.short()).collect::<Vec<_>>()));
        Ok(())
    });
    // every split of a short payload into up to 4 fragments x which gaps hold which control
    let payload = "a\u{e9}\u{20ac}".as_bytes().to_vec(); // 6 bytes
    let mut splits: Vec<Vec<usize>> = vec![vec![]];
    let n = payload.len();
    for a in 0..=n {
        splits.push(vec![a]);
        for b in a..=n {
            splits.push(vec![a, b]);
            for d in b..=n {
                splits.push(vec![a, b, d]);
            }
        }
    }
    let shapes = splits.len() as u64 * 16 * 2;
    x.run("systematic", shapes * x.q(1, 12), |c| {
        let sp = &splits[(c.idx % splits.len() as u64) as usize];
        let rk = recv::ALL[(c.idx / splits.len() as u64 % 16) as usize];
        let role = if c.idx / splits.len() as u64 / 16 % 2 == 0 { Role::Client } else { Role::Server };
        let masked = role.recv_masked();
        let op = if c.rng.chance(1, 2) { 1 } else { 2 };
        let mut fs = vec![];
        let mut want = vec![];
        let mut a = 0;
        for (i, e) in sp.iter().cloned().chain([n]).enumerate() {
            if i > 0 {
                let pat = c.rng.below(5);
                for k in 0..pat.saturating_sub(1) {
                    let m = match (pat + k) % 4 {
                        0 => M::Ping(vec![k as u8; k]),
                        1 => M::Pong(vec![7; 125]),
                        2 => M::Close(Some((1000 + k as u16, "bye".into()))),
                        _ => M::Ping(vec![]),
                    };
                    fs.push(gen::frame_of(&mut c.rng, &m, masked));
                    want.push(m);
                }
            }
            let k = gen::mask_for(&mut c.rng, masked);
            fs.push(F::new(e == n && i == sp.len(), if i == 0 { op } else { 0 }, payload[a..e].to_vec()).masked(k));
            a = e;
        }
        want.push(M::build(op, &payload).unwrap());
        // a second fragmented message follows directly
        let k1 = gen::mask_for(&mut c.rng, masked);
        let k2 = gen::mask_for(&mut c.rng, masked);
        fs.push(F::new(false, 2, vec![1, 2]).masked(k1));
        fs.push(F::new(true, 0, vec![3]).masked(k2));
        want.push(M::Bin(vec![1, 2, 3]));
        let mut o = Opts::new(role);
        o.variant = c.rng.below(12);
        let end = end_of(c);
        expect(c, rk, &o, &fs, &want, end)?;
        c.ev("systematic_splits", 1);
        c.eval(c.idx);
        Ok(())
    });
    // timeliness: nothing beyond the final fragment is needed, nothing is delivered before it
    x.run("timely", 32 * x.q(60, 2500), |c| {
        let i = (c.idx % 32) as usize;
        let rk = recv::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let mut o = Opts::new(role);
        o.variant = c.rng.below(12);
        let ms: Vec<M> = (0..c.rng.range(1, 3)).map(|_| gen::msg(&mut c.rng, false)).collect();
        let inter = c.rng.below(6);
        let (fs, _) = gen::fragmented(&mut c.rng, &ms, role.recv_masked(), 4, inter);
        for n in 0..=fs.len() {
            let part = &fs[..n];
            let data = encode_all(part);
            let r = ref_decode(&data, role.recv_masked());
            if r.bad.is_some() {
                hfail!("oracle rejects generated frames: {:?}", r.bad);
            }
            let want: Vec<M> = r.msgs.into_iter().map(|m| m.0).collect();
            expect(c, rk, &o, part, &want, End::Block)?;
            c.ev("stops", 1);
        }
        c.eval(gen::fp(&ms) ^ i as u64);
        Ok(())
    });
    x.run("many", 32 * x.q(2, 20), |c| {
        let i = (c.idx % 32) as usize;
        let rk = recv::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let masked = role.recv_masked();
        let n = *c.rng.pick(&[257, 1000, 5000, 20000]);
        let every = *c.rng.pick(&[0usize, 2, 7, 100]);
        let mut fs = vec![];
        let mut want = vec![];
        let mut all = vec![];
        for k in 0..n {
            let sz = if c.rng.chance(1, 3) { 0 } else { c.rng.below(4) };
            let p = c.rng.bytes(sz);
            all.extend_from_slice(&p);
            let key = gen::mask_for(&mut c.rng, masked);
            fs.push(F::new(k + 1 == n, if k == 0 { 2 } else { 0 }, p).masked(key));
            if every > 0 && k % every == every - 1 && k + 1 < n {
                let m = M::Ping((k as u32).to_be_bytes().to_vec());
                fs.push(gen::frame_of(&mut c.rng, &m, masked));
                want.push(m);
            }
        }
        want.push(M::Bin(all));
        let mut o = Opts::new(role);
        o.variant = c.rng.below(12);
        c.ev("fragments", n as u64);
        expect(c, rk, &o, &fs, &want, End::Eof)?;
        c.eval(c.idx);
        Ok(())
    });
    // a few very large messages, in a few large fragments
    x.run_t("huge", 32 * x.q(1, 6), 4, |c| {
        let i = (c.idx % 32) as usize;
        let rk = recv::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let masked = role.recv_masked();
        let most = if c.rng.chance(1, 4) { 40 << 20 } else { 20 << 20 };
        let total = c.rng.range(5 << 20, most);
        let n = *c.rng.pick(&[2usize, 3, 5, 9, 40, 300]);
        let text = c.rng.chance(1, 2);
        let mut cuts: Vec<usize> = (1..n).map(|_| c.rng.below(total + 1)).collect();
        cuts.push(0);
        cuts.push(total);
        cuts.sort();
        let all = if text { vec![b'h'; total] } else { gen::payload(&mut c.rng, total) };
        let mut fs = vec![];
        let mut want = vec![];
        for k in 0..n {
            let key = gen::mask_for(&mut c.rng, masked);
            fs.push(F::new(k + 1 == n, if k > 0 { 0 } else if text { 1 } else { 2 }, all[cuts[k]..cuts[k + 1]].to_vec()).masked(key));
            if k + 1 < n && c.rng.chance(1, 4) {
                let m = M::Ping((k as u32).to_be_bytes().to_vec());
                fs.push(gen::frame_of(&mut c.rng, &m, masked));
                want.push(m);
            }
        }
        want.push(if text { M::Text(String::from_utf8(all).unwrap()) } else { M::Bin(all) });
        let m = M::Text("z".into());
        fs.push(gen::frame_of(&mut c.rng, &m, masked));
        want.push(m);
        let mut o = Opts::new(role);
        o.variant = c.rng.below(12);
        let chunk = c.rng.range(100_000, 3_000_000);
        let steps: Vec<Step> = encode_all(&fs).chunks(chunk).map(|d| Step::Data(d.to_vec())).collect();
        let g = recv::receive(rk, &o, steps, End::Eof)?;
        let got = g.msgs();
        ensure!(
            got == want,
            "{:?}/{:?}: a message of {} bytes in {} fragments: received {} message(s) with {:?} bytes",
            rk, role, total, n, got.len(), got.iter().map(|m| m.payload().len()).collect::<Vec<_>>()
        );
        c.ev("huge_messages", 1);
        c.ev("fragments", n as u64);
        c.eval(c.idx);
        Ok(())
    });
    // the blocking receiver's frame lists: one message's frames, or one control frame, per call
    x.run("frame_lists", x.q(2000, 100000), |c| {
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        let mut ms = gen::msgs(&mut c.rng, 4, false);
        ms.push(M::Bin(vec![1, 2, 3, 4]));
        let (fs, want) = gen::fragmented(&mut c.rng, &ms, role.recv_masked(), 5, 4);
        let data = encode_all(&fs);
        let b = gen::bounds_of(&fs);
        let (steps, _) = gen::segment(&mut c.rng, &data, &b);
        let mut s = Scripted::new(steps, End::Eof);
        let mut r = Receiver::new(role.recv_masked());
        for w in &want {
            let l = match r.recv_message_dataframes(&mut s) {
                Ok(l) => l,
                Err(e) => viol!("recv_message_dataframes: {} instead of {}", recv::errclass(&e), w.short()),
            };
            ensure!(!l.is_empty(), "recv_message_dataframes returned no frame");
            let op = l[0].opcode as u8;
            let shape = l.iter().enumerate().all(|(i, f)| f.finished == (i + 1 == l.len()) && (i == 0 || f.opcode as u8 == 0));
            let mut p = vec![];
            for f in l {
                p.extend(f.take_payload());
            }
            ensure!(
                op == w.op() && p == w.payload() && shape,
                "recv_message_dataframes returned opcode {} payload {} for {}",
                op,
                hex(&p),
                w.short()
            );
        }
        c.ev("frame_lists", want.len() as u64);
        c.eval(gen::fp(&want));
        Ok(())
    });
    // lists of frames turned into a message directly, with one frame that does not belong somewhere
    x.run("lists", x.q(600, 20000), |c| {
        let n = *c.rng.pick(&[1usize, 2, 3, 10, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513, 1000, 1025, 5000]);
        let text = c.rng.chance(1, 2);
        let mut all = vec![];
        let mut l: Vec<DataFrame> = (0..n)
            .map(|i| {
                let q = if text { vec![b'a' + (i % 26) as u8; c.rng.below(4)] } else { let k = c.rng.below(4); c.rng.bytes(k) };
                all.extend_from_slice(&q);
                let op = if i > 0 { Opcode::Continuation } else if text { Opcode::Text } else { Opcode::Binary };
                DataFrame::new(i + 1 == n, op, q)
            })
            .collect();
        let mut bad = None;
        if n > 1 && c.rng.chance(2, 3) {
            let i = match c.rng.below(3) {
                0 => n - 1,
                1 => (n - 1) / 256 * 256,
                _ => c.rng.range(1, n - 1),
            };
            if i > 0 {
                if c.rng.chance(1, 2) {
                    l[i].opcode = *c.rng.pick(&[Opcode::Text, Opcode::Binary, Opcode::Ping, Opcode::Close, Opcode::Pong]);
                } else {
                    l[i].reserved[c.rng.below(3)] = true;
                }
                bad = Some((i, format!("{:?} reserved {:?}", l[i].opcode, l[i].reserved)));
            }
        }
        let (a, b) = (OwnedMessage::from_dataframes(l.clone()), Message::from_dataframes(l));
        let want = M::build(if text { 1 } else { 2 }, &all).unwrap();
        match bad {
            Some((i, w)) => {
                ensure!(a.is_err() && b.is_err(), "a list of {} frames whose frame {} is {} became a message", n, i, w);
                c.ev("misfits_refused", 1);
            }
            None => {
                let ok = matches!((&a, &b), (Ok(a), Ok(b)) if M::of(a) == want && b.payload[..] == all[..]);
                ensure!(ok, "a list of {} frames became {:?}", n, a.map(|a| M::of(&a).short()).map_err(|e| recv::errclass(&e)));
                c.ev("lists_joined", 1);
            }
        }
        c.eval(hash(&all) ^ n as u64);
        Ok(())
    });
    x.need("misfits_refused", 100);
    x.need("lists_joined", 100);
    x.need("fragments", 5000);
    x.need("interleaved_controls", 500);
    x.need("stops", 1000);
}
