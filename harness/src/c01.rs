//! C01: what one endpoint sends is what the other delivers.
use crate::core::*;
use crate::gen;
use crate::recv::{self, Ev, Opts, RK};
use crate::send::{self, Form, FORMS, SK};
use crate::stream::*;
use crate::wire::*;
use std::io::ErrorKind;


fn check_delivery(k: RK, o: &Opts, steps: Vec<Step>, want: &[M]) -> Res {
    let got = recv::receive(k, o, steps, End::Eof)?;
    let ms = got.msgs();
    ensure!(
        ms == want,
        "{:?}/{:?}: sent {} but delivered {} (results {})",
        k,
        o.role,
        shorts(want),
        shorts(&ms),
        recv::evs(&got.evs)
    );
    let clean = match got.evs.last() {
        Some(Ev::End) => true,
        Some(Ev::Err(e)) => !k.is_async() && e == "NoData",
        _ => false,
    };
    ensure!(clean, "{:?}/{:?}: after the last message the end of stream was reported as {}", k, o.role, recv::evs(&got.evs));
    Ok(())
}

pub fn pair_case(c: &mut Case, sk: SK, rk: RK, form: Form, role: Role, ms: &[M]) -> Res {
    let (wp, fpn) = gen::wplan(&mut c.rng, sk.is_async_io());
    let variant = c.rng.below(24);
    c.note(format!("send {:?}/{:?}/{:?} variant {} recv {:?} wplan {:?} msgs {}", sk, form, role, variant, rk, wp, shorts(ms)));
    let sent = send::send(sk, form, role, ms, wp, fpn, variant)?;
    for (i, r) in sent.results.iter().enumerate() {
        if let (Err(e), _) = r {
            viol!("{:?}/{:?}: sending {} failed on a working transport: {}", sk, role, ms[i].short(), e);
        }
    }
    {
        let l = sent.stream.l();
        c.ev("short_writes", l.short_writes);
        c.ev("write_waits", l.waits);
    }
    let fs = match parse_sent(&sent.out) {
        Ok(f) => f,
        Err(e) => viol!("{:?}/{:?}: bytes on the wire are not frames: {}", sk, role, e),
    };
    let bounds = gen::bounds_of(&fs);
    let (steps, seg) = gen::segment(&mut c.rng, &sent.out, &bounds);
    let mut o = Opts::new(role.peer());
    o.variant = c.rng.below(12);
    if c.rng.chance(1, 6) {
        o.read_cap = c.rng.range(1, 50);
    }
    c.note(format!("segmentation {:?} ({} reads), read cap {}", seg, steps.len(), o.read_cap));
    c.seen("segmentation", hash_s(&format!("{:?}", seg)));
    c.seen("interface_pair", hash_s(&format!("{:?}{:?}{:?}", sk, rk, role)));
    check_delivery(rk, &o, steps, ms)?;
    c.ev("messages_delivered", ms.len() as u64);
    c.ev("bytes_on_wire", sent.out.len() as u64);
    if ms.is_empty() {
        c.eval_trivial()
    } else {
        c.eval(gen::fp(ms) ^ hash_s(&format!("{:?}{:?}{:?}{:?}", sk, rk, role, seg)));
    }
    c.sample(|| format!("{:?} {:?} as {:?} -> {:?}, {:?}: {}", sk, form, role, rk, seg, shorts(ms)));
    Ok(())
}

/// A transport that fails after some byte: what was reported as sent is on the wire, what is not is reported.
fn fault_case(c: &mut Case, sk: SK, form: Form, role: Role) -> Res {
    let ms = gen::msgs(&mut c.rng, 6, c.idx % 8 == 0);
    if ms.is_empty() || matches!(sk, SK::Codec | SK::CodecMsg | SK::CodecDf) {
        return Ok(());
    }
    let mut ends = vec![];
    let mut total = 0;
    for m in &ms {
        total += gen::frame_of(&mut c.rng, m, role.send_masked()).encode().len();
        ends.push(total);
    }
    let at = match c.rng.below(4) {
        0 => {
            let i = c.rng.below(ends.len());
            (ends[i] + c.rng.below(3)).saturating_sub(1)
        }
        1 => {
            // inside a frame's header
            let i = c.rng.below(ends.len());
            (if i == 0 { 0 } else { ends[i - 1] }) + c.rng.below(14)
        }
        _ => c.rng.below(total + 2),
    };
    let kind = *c.rng.pick(&[
        Some(ErrorKind::BrokenPipe),
        Some(ErrorKind::ConnectionReset),
        Some(ErrorKind::ConnectionAborted),
        Some(ErrorKind::NotConnected),
        Some(ErrorKind::Other),
        Some(ErrorKind::UnexpectedEof),
        Some(ErrorKind::TimedOut),
        if sk.is_async_io() { None } else { Some(ErrorKind::WouldBlock) },
        None,
    ]);
    let (mut wp, fpn) = gen::wplan(&mut c.rng, sk.is_async_io());
    wp.push(W::FailAt(at, kind));
    let variant = c.rng.below(24);
    let what = format!("{:?}/{:?}/{:?} variant {}: {} of {} bytes taken, then {:?}; plan {:?}; {}", sk, form, role, variant, at, total, kind, wp, shorts(&ms));
    c.note(what.clone());
    let sent = send::send(sk, form, role, &ms, wp, fpn, variant)?;
    let out = &sent.out;
    let n = ends.iter().filter(|e| **e <= out.len()).count();
    ensure!(out.len() == at.min(total), "{}: {} bytes on the wire", what, out.len());
    if sk.is_async_io() {
        let all = sent.stream.l().flushed_all;
        ensure!(all == (total <= at), "{}: the sink {} ", what, if all { "claims that all was sent" } else { "failed although all fits" });
        for (i, r) in sent.results.iter().enumerate() {
            ensure!(!(r.0.is_ok() && r.1 > 0 && ends[i] > r.1), "{}: message {} reported as flushed with {} bytes on the wire", what, i, r.1);
        }
    } else {
        for (i, r) in sent.results.iter().enumerate() {
            let fits = ends[i] <= at;
            ensure!(r.0.is_ok() == fits, "{}: sending message {} gave {:?}", what, i, r.0);
            ensure!(!fits || r.1 == ends[i], "{}: after message {} there are {} bytes on the wire instead of {}", what, i, r.1, ends[i]);
        }
    }
    // and the peer gets what was complete
    let rk = *c.rng.pick(&recv::ALL);
    let mut o = Opts::new(role.peer());
    o.variant = c.rng.below(12);
    let (steps, _) = gen::segment(&mut c.rng, out, &[]);
    let got = recv::receive(rk, &o, steps, End::Eof)?;
    ensure!(got.msgs() == ms[..n], "{}: {:?} delivered {} instead of the first {}", what, rk, shorts(&got.msgs()), n);
    c.ev("write_failures", (total > at) as u64);
    c.ev("messages_before_failures", n as u64);
    c.eval(gen::fp(&ms) ^ hash_s(&format!("{:?}{:?}{:?}{}", sk, role, kind, at)));
    Ok(())
}

/// One connection that carries very many messages, or very large ones: nothing may depend on how much went before.
fn long_case(c: &mut Case, sk: SK, rk: RK, role: Role, ms: &[M]) -> Res {
    let form = *c.rng.pick(&FORMS);
    let variant = c.rng.below(24);
    c.note(format!("send {:?}/{:?}/{:?} variant {} recv {:?} {}", sk, form, role, variant, rk, shorts(ms)));
    let sent = send::send(sk, form, role, ms, vec![], vec![], variant)?;
    for (i, r) in sent.results.iter().enumerate() {
        if let (Err(e), _) = r {
            viol!("{:?}/{:?}: sending message {} of {} ({}) failed on a working transport: {}", sk, role, i, ms.len(), ms[i].short(), e);
        }
    }
    let mut o = Opts::new(role.peer());
    o.variant = c.rng.below(12);
    o.max_events = ms.len() + 10;
    let mut steps = vec![];
    let mut rest = &sent.out[..];
    while !rest.is_empty() {
        let n = (1 << c.rng.range(9, 20)) + c.rng.below(511);
        let n = n.min(rest.len());
        steps.push(Step::Data(rest[..n].to_vec()));
        rest = &rest[n..];
    }
    let bytes = sent.out.len();
    drop(sent);
    let got = recv::receive(rk, &o, steps, End::Eof)?;
    let mut n = 0;
    for e in got.evs.iter() {
        match e {
            Ev::Msg(m) if n < ms.len() && *m == ms[n] => n += 1,
            Ev::Msg(m) => viol!("{:?} -> {:?} as {:?}: delivery {} is {} instead of {}", sk, rk, role, n, m.short(), ms.get(n).map(|m| m.short()).unwrap_or("the end".into())),
            _ => {}
        }
    }
    ensure!(n == ms.len(), "{:?} -> {:?} as {:?}: {} of {} messages delivered, then {:?}", sk, rk, role, n, ms.len(), got.evs.last().map(|e| e.short()));
    let clean = match got.evs.last() {
        Some(Ev::End) => true,
        Some(Ev::Err(e)) => !rk.is_async() && e == "NoData",
        _ => false,
    };
    ensure!(clean, "{:?} as {:?}: after the last message the end of stream was reported as {:?}", rk, role, got.evs.last().map(|e| e.short()));
    c.ev("messages_delivered", ms.len() as u64);
    c.ev("bytes_on_wire", bytes as u64);
    c.seen("interface_pair", hash_s(&format!("{:?}{:?}{:?}", sk, rk, role)));
    c.eval(gen::fp(&ms[..ms.len().min(50)]) ^ hash_s(&format!("{:?}{:?}{:?}{}", sk, rk, role, ms.len())));
    Ok(())
}
fn short_msg(r: &mut Rng) -> M {
    let n = r.below(4);
    match r.below(12) {
        0 => M::Ping(r.bytes(n)),
        1 => M::Pong(r.bytes(n)),
        2 => M::Close(Some((r.below(65536) as u16, String::new()))),
        3 => M::Close(None),
        4..=7 => M::Text(gen::utf8(r, n)),
        _ => M::Bin(r.bytes(n)),
    }
}

pub fn run(x: &Ctx) {
    x.scale(10);
    x.rule("a case sends a generated message list through one send interface over a transport with a generated partial-write/back-pressure plan and receives the captured bytes through one receive interface under a generated read segmentation; non-trivial: at least one message; distinct by message list, interface pair, role and segmentation kind");
    x.assume("the scripted transport is a reliable byte stream");
    // every interface pair, both roles, systematically, with random content
    let pairs = (send::ALL.len() * recv::ALL.len() * 2) as u64;
    x.run("pairs", pairs * x.q(12, 600), |c| {
        let i = (c.idx % pairs) as usize;
        let sk = send::ALL[i / 2 % send::ALL.len()];
        let rk = recv::ALL[i / 2 / send::ALL.len()];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let form = *c.rng.pick(&FORMS);
        let ms = gen::msgs(&mut c.rng, 12, c.idx % 4 == 0);
        pair_case(c, sk, rk, form, role, &ms)
    });
    // each size boundary alone and followed by another message, through every interface
    let sizes: Vec<usize> = gen::EDGE.iter().chain(gen::EDGE_BIG.iter()).cloned().chain([131071, 262144, 1 << 20]).collect();
    let per = (sizes.len() * send::ALL.len()) as u64;
    x.run("sizes", per * x.q(1, 12), |c| {
        let i = (c.idx % per) as usize;
        let n = sizes[i % sizes.len()];
        let sk = send::ALL[i / sizes.len()];
        let rk = *c.rng.pick(&recv::ALL);
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        let form = *c.rng.pick(&FORMS);
        let a = if c.rng.chance(1, 2) { M::Text(gen::utf8(&mut c.rng, n)) } else { M::Bin(gen::payload(&mut c.rng, n)) };
        let b = gen::msg(&mut c.rng, false);
        let ms = if c.rng.chance(1, 2) { vec![a, b] } else { vec![b, a, gen::control(&mut c.rng)] };
        c.ev("size_boundary_cases", 1);
        pair_case(c, sk, rk, form, role, &ms)
    });
    x.run("write_failures", (send::ALL.len() * 2) as u64 * x.q(40, 4000), |c| {
        let sk = send::ALL[(c.idx / 2) as usize % send::ALL.len()];
        let form = *c.rng.pick(&FORMS);
        fault_case(c, sk, form, if c.idx % 2 == 0 { Role::Client } else { Role::Server })
    });
    x.need("write_failures", 1000);
    // conversation: both directions over one pair of connections, turn by turn
    x.run("dialogue", x.q(300, 20000), dialogue);
    // several messages larger than the sink's high-water mark
    x.run("backpressure", x.q(60, 3000), |c| {
        let sk = *c.rng.pick(&[SK::Framed, SK::FramedMsg, SK::FramedDf, SK::FramedSplit, SK::AsyncClient]);
        let rk = *c.rng.pick(&recv::ALL);
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        let n = c.rng.range(3, 9);
        let mut ms = vec![];
        for _ in 0..n {
            let sz = *c.rng.pick(&[100, 8150, 8180, 8192, 8200, 20000, 65540, 7, 0]);
            ms.push(M::Bin(c.rng.bytes(sz)));
            if c.rng.chance(1, 3) {
                ms.push(gen::control(&mut c.rng))
            }
        }
        c.ev("backpressure_cases", 1);
        let form = *c.rng.pick(&FORMS);
        pair_case(c, sk, rk, form, role, &ms)
    });
    // one connection for very many messages: each send and each receive interface at least once per round
    let per = send::ALL.len() as u64;
    x.run("many", per * if x.tier == Tier::Quick { 8 } else { 64 }, |c| {
        let i = c.idx as usize;
        let sk = send::ALL[i % send::ALL.len()];
        let rk = recv::ALL[i % recv::ALL.len()];
        let n = 66_000 + c.rng.below(if c.idx >= per { 140_000 } else { 9_000 });
        let ms: Vec<M> = (0..n).map(|_| short_msg(&mut c.rng)).collect();
        c.ev("connections_with_over_65536_messages", 1);
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        long_case(c, sk, rk, role, &ms)
    });
    x.need("connections_with_over_65536_messages", 20);
    // payloads around 16 MiB and beyond
    x.run_t("huge", per * if x.tier == Tier::Quick { 4 } else { 20 }, 4, |c| {
        let i = c.idx as usize;
        let sk = send::ALL[i % send::ALL.len()];
        let rk = recv::ALL[(i + i / send::ALL.len()) % recv::ALL.len()];
        let mut n = *c.rng.pick(&[(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 77]);
        if c.idx >= 3 * per && c.rng.chance(1, 2) {
            n = *c.rng.pick(&[(1 << 25) + 1, (1 << 26) - 1, (1 << 26) + 3]);
        }
        let a = if c.rng.chance(1, 4) { M::Text(gen::utf8(&mut c.rng, n)) } else { M::Bin(c.rng.bytes(n)) };
        let b = short_msg(&mut c.rng);
        c.ev("payloads_of_16_mib_and_more", 1);
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        long_case(c, sk, rk, role, &[a, b])
    });
    x.need("payloads_of_16_mib_and_more", 20);
    x.run("close_codes", x.q(64, 64), |c| {
        // every close code once across the section
        let mut ms = vec![];
        for k in 0..1024u32 {
            let code = (c.idx as u32 * 1024 + k) as u16;
            let n = c.rng.below(6);
            ms.push(M::Close(Some((code, gen::utf8(&mut c.rng, n)))));
        }
        let sk = *c.rng.pick(&send::ALL);
        let rk = *c.rng.pick(&recv::ALL);
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        let form = *c.rng.pick(&FORMS);
        c.ev("close_codes", 1024);
        pair_case(c, sk, rk, form, role, &ms)
    });
    x.need("messages_delivered", 1000);
    x.need("short_writes", 1000);
    x.need("size_boundary_cases", 100);
    x.need("dialogue_messages", 100);
}

fn dialogue(c: &mut Case) -> Res {
    // a blocking client connection used for both directions, peer bytes arriving in between
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let mut o = Opts::new(role);
    o.variant = c.rng.below(6);
    let asy = c.rng.chance(1, 2);
    let s = Scripted::new(vec![Step::Data(recv::handshake_bytes(role))], End::Block);
    let turns = c.rng.range(1, 8);
    let mut all = vec![];
    if asy {
        use futures::Stream as _;
        let mut f = recv::async_conn(s.clone(), &o)?;
        let ss = [s.clone()];
        s.take_out();
        for _ in 0..turns {
            let inn = gen::msgs(&mut c.rng, 4, false);
            let outm = gen::msgs(&mut c.rng, 3, false);
            feed(c, &s, role, &inn);
            for w in &inn {
                match crate::exec::drive_fn(|| f.poll(), &ss)? {
                    crate::exec::D::Done(Some(m)) => ensure!(M::of(&m) == *w, "async dialogue: expected {} got {}", w.short(), M::of(&m).short()),
                    crate::exec::D::Done(None) => viol!("async dialogue: stream ended before {}", w.short()),
                    crate::exec::D::Err(e) => viol!("async dialogue: {} instead of {}", recv::errclass(&e), w.short()),
                    crate::exec::D::Idle => viol!("async dialogue: {} not delivered", w.short()),
                }
            }
            let v = c.rng.below(12) / 4 * 4;
            let (wp, fpn) = gen::wplan(&mut c.rng, true);
            {
                let mut l = s.l();
                l.wplan = wp;
                l.fplan = fpn;
                l.wi = 0;
                l.fi = 0;
            }
            let r = send::sink_all(&mut f, outm.iter().map(|m| m.owned()).collect(), &s, v)?;
            ensure!(r.iter().all(|x| x.0.is_ok()), "async dialogue: send failed: {:?}", r);
            all.extend(inn.iter().cloned());
            check_sent(&s, role, &outm)?;
            c.ev("dialogue_messages", (inn.len() + outm.len()) as u64);
        }
    } else {
        let mut cl = recv::sync_conn(s.clone(), &o)?;
        s.take_out();
        for _ in 0..turns {
            let inn = gen::msgs(&mut c.rng, 4, false);
            let outm = gen::msgs(&mut c.rng, 3, false);
            feed(c, &s, role, &inn);
            for w in &inn {
                match cl.recv_message() {
                    Ok(m) => ensure!(M::of(&m) == *w, "dialogue: expected {} got {}", w.short(), M::of(&m).short()),
                    Err(e) => viol!("dialogue: {} instead of {}", recv::errclass(&e), w.short()),
                }
            }
            let (wp, _) = gen::wplan(&mut c.rng, false);
            s.l().wplan = wp;
            for m in &outm {
                if let Err(e) = cl.send_message(&m.owned()) {
                    viol!("dialogue: send failed: {}", recv::errclass(&e));
                }
            }
            check_sent(&s, role, &outm)?;
            all.extend(inn.iter().cloned());
            c.ev("dialogue_messages", (inn.len() + outm.len()) as u64);
        }
    }
    c.eval(gen::fp(&all) ^ asy as u64);
    Ok(())
}
fn feed(c: &mut Case, s: &Scripted, role: Role, ms: &[M]) {
    let fs: Vec<F> = ms.iter().map(|m| gen::frame_of(&mut c.rng, m, role.recv_masked())).collect();
    let data = encode_all(&fs);
    let b = gen::bounds_of(&fs);
    let (steps, _) = gen::segment(&mut c.rng, &data, &b);
    for st in steps {
        s.push(st);
    }
}
fn check_sent(s: &Scripted, role: Role, want: &[M]) -> Res {
    let out = s.take_out();
    let r = ref_decode(&out, role.send_masked());
    let got: Vec<M> = r.msgs.into_iter().map(|m| m.0).collect();
    ensure!(
        got == want && r.bad.is_none() && !r.partial,
        "dialogue as {:?}: sent {} but the wire carries {} (bad {:?}, partial {})",
        role,
        shorts(want),
        shorts(&got),
        r.bad,
        r.partial
    );
    Ok(())
}
