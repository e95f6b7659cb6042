//! C08: configured size limits are enforced, and only they.
use crate::c20;
use crate::core::*;
use crate::exec::{drive_fn, D};
use crate::gen;
use crate::net;
use crate::recv::{self, errclass, Ev, Opts, RK};
use crate::stream::*;
use crate::wire::*;
use bytes::BytesMut;
use futures::{Future, Stream as _};
use tokio_codec::Decoder;
use websocket::codec::ws::DataFrameCodec;
use websocket::dataframe::DataFrame;
use websocket::receiver::{Reader, Receiver};
use websocket::ws::Receiver as _;
use websocket::ClientBuilder;

const BIG: usize = u32::MAX as usize;
const DEF_FRAME: usize = 100 * 1024 * 1024;
const DEF_MSG: usize = 200 * 1024 * 1024;

fn rk_role(i: u64) -> (RK, Role) {
    (recv::ALL[(i / 2 % 16) as usize], if i % 2 == 0 { Role::Client } else { Role::Server })
}
fn header_frame(r: &mut Rng, op: u8, fin: bool, masked: bool) -> F {
    let k = gen::mask_for(r, masked);
    F::new(fin, op, vec![]).masked(k)
}

/// A frame of announced length `l` at a position of the stream against the frame limit.
fn frame_limit(c: &mut Case, rk: RK, role: Role, flimit: Option<usize>, l: u64, pos: usize) -> Res {
    let masked = role.recv_masked();
    let mut data = vec![];
    let mut want = vec![];
    let small = flimit.map(|f| f.min(3)).unwrap_or(3);
    if c.rng.chance(1, 2) {
        let m = M::Bin(vec![1; small]);
        data.extend(gen::frame_of(&mut c.rng, &m, masked).encode());
        want.push(m);
    }
    let (op, fin) = match pos {
        0 => (2, true),
        1 => (1, true),
        2 => (2, false),
        3 => (0, true),
        4 => (0, false),
        _ => (9, true),
    };
    let mut acc = vec![];
    if op == 0 {
        let k = gen::mask_for(&mut c.rng, masked);
        acc = vec![7; small];
        data.extend(F::new(false, 2, acc.clone()).masked(k).encode());
    }
    // a limit above u32::MAX may be taken for u32::MAX
    let lim = flimit.unwrap_or(DEF_FRAME).min(BIG) as u64;
    let zone = flimit.map_or(false, |f| l > lim && l <= f as u64);
    if zone {
        return Ok(());
    }
    let mut f = header_frame(&mut c.rng, op, fin, masked);
    let over = l > lim;
    // a frame over the limit must be refused on its header alone
    let send_payload = !over && l <= 200_000;
    if send_payload {
        f.payload = vec![b'p'; l as usize];
        data.extend(f.encode());
        acc.extend_from_slice(&f.payload);
        if fin {
            want.push(M::build(if op == 0 { 2 } else { op }, &acc).unwrap());
        }
        let m = M::Ping(vec![]);
        data.extend(gen::frame_of(&mut c.rng, &m, masked).encode());
        want.push(m);
    } else {
        data.extend(f.header(l));
    }
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    o.limits = flimit.map(|f| (f, BIG));
    let steps = if c.rng.chance(1, 3) { data.iter().map(|b| Step::Data(vec![*b])).take(4000).collect() } else { vec![Step::Data(data.clone())] };
    let steps: Vec<Step> = if data.len() > 4000 { vec![Step::Data(data)] } else { steps };
    let got = recv::receive(rk, &o, steps, End::Block)?;
    let what = format!("{:?}/{:?}: frame limit {:?}, frame op {} fin {} announcing {} bytes", rk, role, flimit, op, fin, l);
    let ms = got.msgs();
    ensure!(ms == want, "{}: expected {} delivered {} ({})", what, shorts(&want), shorts(&ms), recv::evs(&got.evs));
    match got.evs.last() {
        Some(Ev::Err(_)) if over => c.ev("oversize_frames_refused", 1),
        Some(Ev::Idle) if !over => c.ev("frames_within_limit", 1),
        e => viol!("{}: {}", what, if over { format!("not refused: {:?}", e) } else { format!("refused: {:?}", e) }),
    }
    c.eval(hash_s(&what));
    c.sample(|| what);
    Ok(())
}

/// Fragments against the message limit. Returns after comparing.
fn message_limit(c: &mut Case, rk: RK, role: Role, limits: (usize, usize), sizes: &[usize], finish: bool, ctrl: bool) -> Res {
    let masked = role.recv_masked();
    let mlimit = limits.1;
    let mut steps = vec![];
    let mut ctrls = vec![];
    let mut all = vec![];
    let mut cum = 0usize;
    let mut over_at = None;
    let glue = c.rng.chance(1, 2);
    for (i, &n) in sizes.iter().enumerate() {
        let fin = finish && i + 1 == sizes.len();
        let p = vec![(i % 251) as u8; n];
        all.extend_from_slice(&p);
        let k = gen::mask_for(&mut c.rng, masked);
        let mut d = F::new(fin, if i == 0 { 2 } else { 0 }, p).masked(k).encode();
        if !fin {
            cum += n;
            if cum > mlimit && over_at.is_none() {
                over_at = Some(i);
            }
        }
        if ctrl && c.rng.chance(1, 2) && !fin {
            let m = M::Ping((i as u16).to_be_bytes().to_vec());
            d.extend(gen::frame_of(&mut c.rng, &m, masked).encode());
            ctrls.push((i, m));
        }
        steps.push(d);
    }
    let total: usize = sizes.iter().sum();
    // when refused, refusal must come with the fragment that crossed the limit: stop the stream right there sometimes
    let mut sent = sizes.len();
    if let Some(i) = over_at {
        if c.rng.chance(1, 2) {
            sent = i + 1;
        }
    }
    let truncated = sent < sizes.len();
    steps.truncate(sent);
    let steps: Vec<Step> = if glue { vec![Step::Data(steps.concat())] } else { steps.into_iter().map(Step::Data).collect() };
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    o.limits = Some(limits);
    o.extra = 40;
    let got = recv::receive(rk, &o, steps, End::Block)?;
    let what = format!(
        "{:?}/{:?}: frame limit {}, message limit {}, fragments {:?}{}, controls {}",
        rk,
        role,
        limits.0,
        mlimit,
        &sizes[..sizes.len().min(30)],
        if finish { "" } else { " unfinished" },
        ctrls.len()
    );
    let ms = got.msgs();
    let cm: Vec<M> = ctrls.iter().filter(|x| x.0 < sent).map(|x| x.1.clone()).collect();
    let safe = total + 64 * sizes.len() < mlimit;
    if over_at.is_some() {
        let n = ms.len();
        ensure!(
            n <= cm.len() && ms[..] == cm[..n] && got.last_bad(),
            "{}: {} payload bytes of an unfinished message exceed the limit, but: {}",
            what,
            cum,
            recv::evs(&got.evs)
        );
        for e in &got.after {
            if let Ev::Msg(m) = e {
                ensure!(m.is_control(), "{}: after the refusal {} was delivered", what, m.short());
            }
            c.ev("attempts_after_refusal", 1);
        }
        c.ev("oversize_messages_refused", 1);
        if truncated {
            c.ev("refused_at_crossing", 1)
        }
    } else if safe {
        let mut want = cm.clone();
        if finish {
            want.push(M::Bin(all));
        }
        ensure!(ms == want && got.evs.last() == Some(&Ev::Idle), "{}: within both limits, but: {}", what, recv::evs(&got.evs));
        c.ev("messages_within_limits", 1);
    } else {
        // neither demanded nor forbidden; whatever is delivered must be right
        for m in &ms {
            ensure!(cm.contains(m) || *m == M::Bin(all.clone()), "{}: delivered {}", what, m.short());
        }
        c.ev("tolerance_zone", 1);
    }
    c.eval(hash_s(&what));
    c.sample(|| what);
    Ok(())
}

fn count_limit(c: &mut Case, rk: RK, role: Role, n: usize, finish: bool, psz: usize) -> Res {
    let masked = role.recv_masked();
    let mut data = Vec::with_capacity(n * (2 + psz + 4) + 64);
    let p = vec![b'.'; psz];
    for i in 0..n {
        let k = gen::mask_for(&mut c.rng, masked);
        data.extend(F::new(finish && i + 1 == n, if i == 0 { 2 } else { 0 }, p.clone()).masked(k).encode());
    }
    let mut o = Opts::new(role);
    if c.rng.chance(1, 2) {
        o.limits = Some((BIG, BIG));
    }
    // what a refused message used up must not count against the next one
    let flood = n > 1_048_576 + 1000;
    let mut next = vec![];
    if flood {
        o.limits = Some((BIG, n * 64 + 20_000_000));
        o.extra = n - 1_048_576 + 10;
        for i in 0..3 {
            let k = gen::mask_for(&mut c.rng, masked);
            let p = vec![b'0' + i as u8; [30_000_000, 40_000_000, 5][i]];
            next.extend_from_slice(&p);
            data.extend(F::new(i == 2, if i == 0 { 2 } else { 0 }, p).masked(k).encode());
        }
    }
    let got = recv::receive(rk, &o, vec![Step::Data(data)], End::Block)?;
    let what = format!("{:?}/{:?}: {} fragments of {} bytes, {}", rk, role, n, psz, if finish { "finished" } else { "unfinished" });
    if n > 1_048_576 + 1000 {
        ensure!(got.msgs().is_empty() && got.last_bad(), "{}: {}", what, recv::evs(&got.evs));
        let after: Vec<String> = got.after.iter().filter(|e| !matches!(e, Ev::Err(_) | Ev::Wait(_))).map(|e| e.short()).collect();
        let ok = got.after.iter().any(|e| matches!(e, Ev::Msg(M::Bin(b)) if *b == next));
        ensure!(ok, "{}: the next message is within the limits and was not delivered, but {:?}", what, after);
        c.ev("fragment_floods_refused", 1);
    } else {
        let ok = got.msgs() == vec![M::Bin(vec![b'.'; psz * n])];
        ensure!(ok && got.evs.last() == Some(&Ev::Idle), "{}: {}", what, recv::evs(&got.evs));
        c.ev("large_fragment_counts", 1);
    }
    c.eval(hash_s(&what));
    Ok(())
}

/// Low-level frame readers with a limit.
fn frame_readers(c: &mut Case) -> Res {
    let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
    let masked = role.recv_masked();
    let lim = *c.rng.pick(&[0usize, 1, 124, 125, 126, 200, 65535, 65536, 70000, 1000]);
    let l = match c.rng.below(5) {
        0 => lim as u64 + 1,
        1 => lim as u64,
        2 => (lim as u64).saturating_sub(1),
        3 => *c.rng.pick(&[1u64 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + lim as u64, 1 << 62, u64::MAX >> 1, u64::MAX]),
        _ => c.rng.below(2 * lim + 2) as u64,
    };
    let over = l > lim as u64;
    let k = gen::mask_for(&mut c.rng, masked);
    let fin = c.rng.chance(1, 2);
    let mut f = F::new(fin, 2, vec![]).masked(k);
    let data = if over {
        f.header(l)
    } else {
        f.payload = vec![b'p'; l as usize];
        f.encode()
    };
    let which = c.rng.below(7);
    let what = format!("frame reader {} limit {} length {} masked {}", which, lim, l, masked);
    let mut s = Scripted::new(vec![Step::Data(data.clone())], End::Block);
    let res: Option<Result<DataFrame, String>> = match which {
        0 => Some(DataFrame::read_dataframe_with_limit(&mut s, masked, lim).map_err(|e| errclass(&e))),
        1 => Some(Receiver::new_with_limits(masked, lim, BIG).recv_dataframe(&mut s).map_err(|e| errclass(&e))),
        2 => {
            let mut r = Reader { stream: hyper::buffer::BufReader::new(s.clone()), receiver: Receiver::new_with_limits(masked, lim, BIG) };
            Some(r.recv_dataframe().map_err(|e| errclass(&e)))
        }
        3 => {
            let mut o = Opts::new(role);
            o.limits = Some((lim, BIG));
            let s = Scripted::new(recv::with_handshake(role, vec![Step::Data(data)], true), End::Block);
            let mut cl = recv::sync_conn(s, &o)?;
            Some(cl.recv_dataframe().map_err(|e| errclass(&e)))
        }
        4 => {
            let mut o = Opts::new(role);
            o.limits = Some((lim, BIG));
            let s = Scripted::new(recv::with_handshake(role, vec![Step::Data(data)], true), End::Block);
            let mut cl = recv::sync_conn(s, &o)?;
            let mut it = cl.incoming_dataframes();
            it.next().map(|r| r.map_err(|e| errclass(&e)))
        }
        5 => {
            let mut codec = DataFrameCodec::<DataFrame>::new_with_limits(recv::ctx_of(role), lim);
            let mut b = BytesMut::from(data);
            match codec.decode(&mut b) {
                Ok(Some(f)) => Some(Ok(f)),
                Ok(None) => None,
                Err(e) => Some(Err(errclass(&e))),
            }
        }
        _ => {
            let s = s.asy();
            let mut f = DataFrameCodec::<Box<dyn websocket::ws::dataframe::DataFrame>>::new_with_limits(recv::ctx_of(role), lim).framed(s.clone());
            match drive_fn(|| f.poll(), &[s])? {
                D::Done(Some(f)) => Some(Ok(f)),
                D::Done(None) => Some(Err("end".into())),
                D::Err(e) => Some(Err(errclass(&e))),
                D::Idle => None,
            }
        }
    };
    match res {
        None => viol!("{}: no verdict on the header", what),
        Some(Ok(d)) => ensure!(!over && d.data.len() as u64 == l, "{}: delivered {} bytes", what, d.data.len()),
        Some(Err(e)) => {
            ensure!(over && !e.contains("scripted block"), "{}: {}", what, e);
        }
    }
    c.ev(if over { "oversize_frames_refused" } else { "frames_within_limit" }, 1);
    c.eval(hash_s(&what));
    Ok(())
}

/// All ways of connecting apply the builder's limits: a real socket, one oversized and one fitting frame/message.
fn connect_paths(c: &mut Case, w: &c20::World) -> Res {
    let path = (c.idx % 10) as usize;
    let secure = path >= 4;
    let scenario = c.idx / 10 % 4;
    let (fl, ml) = if scenario < 2 { (1000usize, 5_000_000usize) } else { (5_000_000, 1000) };
    // 0: frame over, 1: frame fits and message larger than the frame limit fits, 2: message over, 3: frame above message limit fits
    let (fs, want): (Vec<F>, Option<M>) = match scenario {
        0 => (vec![F::new(true, 2, vec![1; 1001])], None),
        1 => {
            let fs: Vec<F> = (0..5).map(|i| F::new(i == 4, if i == 0 { 2 } else { 0 }, vec![2; 1000])).collect();
            (fs, Some(M::Bin(vec![2; 5000])))
        }
        2 => (vec![F::new(false, 2, vec![3; 600]), F::new(false, 0, vec![3; 600]), F::new(true, 0, vec![3; 1])], None),
        _ => (vec![F::new(true, 2, vec![4; 900])], Some(M::Bin(vec![4; 900]))),
    };
    let (l, a) = net::listener()?;
    let data = encode_all(&fs);
    let acc = if secure { Some(c20::acceptor(w, a.ip())?) } else { None };
    fn drain<S: std::io::Read>(mut s: S) {
        let mut b = [0u8; 256];
        while let Ok(n) = s.read(&mut b) {
            if n == 0 {
                break;
            }
        }
    }
    let th = std::thread::spawn(move || -> Result<(), String> {
        let (mut s, _) = l.accept().map_err(|e| e.to_string())?;
        net::guard_sock(&s);
        match acc {
            None => {
                net::answer(&mut s, &data)?;
                let _ = s.shutdown(std::net::Shutdown::Write);
                drain(s);
            }
            Some(acc) => {
                let mut s = acc.accept(s).map_err(|e| format!("TLS: {}", e))?;
                net::answer(&mut s, &data)?;
                let _ = s.shutdown();
                drain(s);
            }
        }
        Ok(())
    });
    let mk = || -> Result<ClientBuilder<'static>, Fail> {
        let u = format!("{}://{}/", if secure { "wss" } else { "ws" }, a);
        Ok(ClientBuilder::new(&u).map_err(|e| Fail::H(e.to_string()))?.max_dataframe_size(fl).max_message_size(ml))
    };
    let trust = c20::connector(&w.ca)?;
    let what = format!("connect path {} limits {:?} scenario {}", path, (fl, ml), scenario);
    macro_rules! blocking {
        ($e:expr) => {
            match $e {
                Ok(mut cl) => cl.recv_message().map(|m| M::of(&m)).map_err(|e| errclass(&e)),
                Err(e) => viol!("{}: connect failed: {}", what, errclass(&e)),
            }
        };
    }
    macro_rules! asynchronous {
        ($e:expr) => {
            match net::block($e.and_then(|(c, _)| c.into_future().map_err(|e| e.0)))? {
                Ok((Some(m), _)) => Ok(M::of(&m)),
                Ok((None, _)) => Err("end".into()),
                Err(e) => Err(errclass(&e)),
            }
        };
    }
    let got: Result<M, String> = match path {
        0 => blocking!(mk()?.connect_insecure()),
        1 | 4 => blocking!(mk()?.connect(None)),
        2 => asynchronous!(mk()?.async_connect_insecure()),
        3 | 5 => asynchronous!(mk()?.async_connect(None)),
        6 => blocking!(mk()?.connect(Some(trust))),
        7 => blocking!(mk()?.connect_secure(Some(trust))),
        8 => asynchronous!(mk()?.async_connect(Some(trust))),
        _ => asynchronous!(mk()?.async_connect_secure(Some(trust))),
    };
    match th.join() {
        Ok(Ok(())) => {}
        Ok(Err(e)) => hfail!("peer: {}", e),
        Err(_) => hfail!("peer thread"),
    }
    match (&want, &got) {
        (Some(w), Ok(g)) => ensure!(w == g, "{}: delivered {}", what, g.short()),
        (None, Err(e)) => ensure!(e != "NoData" && e != "end", "{}: oversized traffic not refused: {}", what, e),
        (w, g) => viol!("{}: expected {:?}, got {:?}", what, w.as_ref().map(|m| m.short()), g.as_ref().map(|m| m.short())),
    }
    c.ev("connect_paths", 1);
    c.eval(hash_s(&what));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("a case configures a frame and a message limit through one of the ways of setting them, sends frames around the limits (oversized ones as a header only, so that waiting for the payload is visible) and compares refusal or delivery with the limits; distinct by interface, limits, sizes and position");
    x.assume("the default limits are 100 MiB per frame and 200 MiB per message, as the constants of the original tree say");
    x.run("frame_limit", 32 * 6 * x.q(30, 600), |c| {
        let (rk, role) = rk_role(c.idx);
        let pos = (c.idx / 32 % 6) as usize;
        let flimit = match c.rng.below(12) {
            0 => 0,
            1 => c.rng.below(126),
            2 => c.rng.below(70000),
            // larger values may be taken for u32::MAX
            3 => *c.rng.pick(&[BIG, BIG - 1, 1 << 31, 1 << 24, BIG + 1, BIG + 2, 1 << 33, usize::MAX, usize::MAX - BIG]),
            _ => *c.rng.pick(&[1, 2, 5, 100, 124, 125, 126, 127, 128, 1000, 65534, 65535, 65536, 65537, 100_000]),
        };
        let cap = flimit.min(BIG) as u64;
        let l = match c.rng.below(6) {
            0 => cap + 1,
            1 => cap,
            2 => cap.saturating_sub(1),
            3 => *c.rng.pick(&[1u64 << 32, (1 << 32) + 1, (1 << 32) + 100, 1 << 33, 1 << 48, 1 << 62, i64::MAX as u64, u64::MAX - 13, u64::MAX]),
            4 => cap + 1 + c.rng.below(300) as u64,
            _ => c.rng.below((cap as usize).min(150_000) + 1) as u64,
        };
        if pos == 5 && l > 125 {
            return Ok(());
        }
        // a frame of 3 GB within the limit: accepting it would only allocate
        if l > 300_000_000 && l <= cap {
            return Ok(());
        }
        frame_limit(c, rk, role, Some(flimit), l, pos)
    });
    x.run("default_frame_limit", 32 * 5 * x.q(1, 4), |c| {
        let (rk, role) = rk_role(c.idx);
        let pos = (c.idx / 32 % 5) as usize;
        for l in [DEF_FRAME as u64 + 1, DEF_FRAME as u64, DEF_FRAME as u64 * 2 + 1, DEF_FRAME as u64 - 1, 1 << 40, u64::MAX, 0, 70000] {
            frame_limit(c, rk, role, None, l, pos)?;
        }
        c.ev("default_limit_cases", 1);
        Ok(())
    });
    x.run("message_limit", 32 * x.q(160, 6000), |c| {
        let (rk, role) = rk_role(c.idx);
        let m = match c.rng.below(6) {
            0 => c.rng.below(300),
            1 => c.rng.below(20_000),
            2 => *c.rng.pick(&[BIG, BIG - 1, 1 << 31, BIG + 1, BIG + 2, 1 << 33, usize::MAX, usize::MAX - BIG]),
            _ => *c.rng.pick(&[0, 1, 64, 65, 125, 126, 128, 500, 1000, 4096, 65535, 65536]),
        };
        let n = c.rng.range(1, 8);
        let target = match c.rng.below(6) {
            0 => m.min(100_000) + 1,
            1 => m.min(100_000),
            2 => m.min(100_000) * 2 + 1,
            3 => m.min(100_000).saturating_sub(64 * n + 1),
            4 => m.min(100_000).saturating_sub(1),
            _ => c.rng.below(2 * m.min(50_000) + 2),
        };
        // spread the target over n fragments, sometimes all in one place
        let mut sizes = vec![0usize; n];
        match c.rng.below(4) {
            0 => sizes[0] = target,
            1 => sizes[n - 1] = target,
            _ => {
                let mut left = target;
                for i in 0..n {
                    let s = if i + 1 == n { left } else { c.rng.below(2 * left / (n - i) + 1).min(left) };
                    sizes[i] = s;
                    left -= s;
                }
                if c.rng.chance(1, 2) {
                    sizes.push(c.rng.below(3));
                }
            }
        }
        let finish = c.rng.chance(3, 4);
        let ctrl = c.rng.chance(1, 2);
        let f = if c.rng.chance(1, 2) { BIG } else { sizes.iter().cloned().max().unwrap_or(0).max(4) };
        message_limit(c, rk, role, (f, m), &sizes, finish, ctrl)
    });
    // many small fragments under and over the limit, with controls between (the receiver is re-entered)
    x.run("dribble", 32 * x.q(12, 300), |c| {
        let (rk, role) = rk_role(c.idx);
        let n = c.rng.range(20, 400);
        let sz = c.rng.range(1, 200);
        let sizes = vec![sz; n];
        let m = match c.rng.below(3) {
            0 => n * (sz + 64) + 1,
            1 => n * sz * c.rng.range(1, 9) / 10,
            _ => n * sz + n * 64 + c.rng.below(5000) + 1,
        };
        let ctrl = c.rng.chance(2, 3);
        message_limit(c, rk, role, (BIG, m), &sizes, true, ctrl)
    });
    // a long history inside both limits: what earlier messages used up must not count against later ones
    x.run("history", 32 * x.q(8, 200), |c| {
        let (rk, role) = rk_role(c.idx);
        let masked = role.recv_masked();
        let flimit = c.rng.range(130, 700);
        let mlimit = c.rng.range(400, 6000);
        let n = c.rng.range(30, 400);
        let style = c.rng.below(4);
        let (mut fs, mut want, mut total) = (vec![], vec![], 0usize);
        for i in 0..n {
            let kind = match style {
                0 => 0,
                1 => c.rng.below(2),
                2 => 2 * c.rng.below(2),
                _ => c.rng.below(3),
            };
            let last = i + 1 == n;
            match if last { 2 } else { kind } {
                // a message in one frame: never unfinished, so only the frame limit counts
                0 => {
                    let l = c.rng.below(flimit.min(mlimit.saturating_sub(65)) + 1);
                    let op = 2;
                    let k = gen::mask_for(&mut c.rng, masked);
                    let p = c.rng.bytes(l);
                    total += l;
                    want.push(M::Bin(p.clone()));
                    fs.push(F::new(true, op, p).masked(k));
                }
                1 => {
                    let l = c.rng.below(126);
                    let m = if c.rng.chance(1, 2) { M::Ping(c.rng.bytes(l)) } else { M::Pong(c.rng.bytes(l)) };
                    total += l;
                    fs.push(gen::frame_of(&mut c.rng, &m, masked));
                    want.push(m);
                }
                // fragments that just fit, with the allowance per fragment
                _ => {
                    let parts = c.rng.range(2, (mlimit / 70).min(6).max(2));
                    let room = mlimit - 64 * parts - 1;
                    let mut p = vec![];
                    for j in 0..parts {
                        let l = if j + 1 == parts { flimit.min(room / parts) } else { c.rng.below(flimit.min(room / parts) + 1) };
                        let q = c.rng.bytes(l);
                        p.extend_from_slice(&q);
                        let k = gen::mask_for(&mut c.rng, masked);
                        fs.push(F::new(j + 1 == parts, if j == 0 { 2 } else { 0 }, q).masked(k));
                        if j + 1 < parts && c.rng.chance(1, 3) {
                            let m = M::Ping(vec![j as u8; c.rng.below(126)]);
                            fs.push(gen::frame_of(&mut c.rng, &m, masked));
                            want.push(m);
                        }
                    }
                    total += p.len();
                    want.push(M::Bin(p));
                }
            }
        }
        let data = encode_all(&fs);
        let b = gen::bounds_of(&fs);
        let (steps, _) = gen::segment(&mut c.rng, &data, &b);
        let mut o = Opts::new(role);
        o.variant = c.rng.below(12);
        o.limits = Some((flimit, mlimit));
        let got = recv::receive(rk, &o, steps, End::Block)?;
        let what = format!("{:?}/{:?}: limits {:?}, {} messages in {} frames, {} payload bytes in all, style {}", rk, role, (flimit, mlimit), want.len(), fs.len(), total, style);
        let ms = got.msgs();
        let same = ms.iter().zip(&want).take_while(|(a, b)| a == b).count();
        ensure!(
            ms.len() == want.len() && same == want.len() && got.evs.last() == Some(&Ev::Idle),
            "{}: every message is within both limits, but {} of {} were delivered, then: {:?}",
            what,
            same,
            want.len(),
            got.evs.last().map(|e| e.short())
        );
        c.ev("histories_within_limits", 1);
        c.ev("history_messages", want.len() as u64);
        c.eval(hash_s(&what));
        c.sample(|| what);
        Ok(())
    });
    // a message refused for its content leaves nothing behind that counts against the next ones
    x.run("after_refusal", 32 * x.q(8, 200), |c| {
        let (rk, role) = rk_role(c.idx);
        let masked = role.recv_masked();
        let flimit = c.rng.range(130, 700);
        let mlimit = c.rng.range(600, 6000);
        let n = c.rng.range(4, 60);
        // None: a text message that is not UTF-8
        let (mut fs, mut want) = (vec![], vec![]);
        for i in 0..n {
            let bad = i + 1 < n && c.rng.chance(1, 2);
            let parts = if c.rng.chance(2, 3) { c.rng.range(2, (mlimit / 70).min(6).max(2)) } else { 1 };
            let room = mlimit - 64 * parts - 1;
            let mut p = vec![];
            for j in 0..parts {
                let l = c.rng.range(1, flimit.min(room / parts));
                let mut q = vec![b'a' + (i % 26) as u8; l];
                if bad && j + 1 == parts {
                    q[l - 1] = 0xff;
                }
                p.extend_from_slice(&q);
                let k = gen::mask_for(&mut c.rng, masked);
                fs.push(F::new(j + 1 == parts, if j == 0 { 1 } else { 0 }, q).masked(k));
            }
            want.push(if bad { None } else { Some(M::Text(String::from_utf8(p).map_err(|e| crate::core::Fail::H(e.to_string()))?)) });
        }
        let first = match want.iter().position(|w| w.is_none()) {
            Some(p) => p,
            None => return Ok(()),
        };
        let data = encode_all(&fs);
        let b = gen::bounds_of(&fs);
        let (steps, _) = gen::segment(&mut c.rng, &data, &b);
        let mut o = Opts::new(role);
        o.variant = c.rng.below(12);
        o.limits = Some((flimit, mlimit));
        o.extra = want.len() - first - 1;
        let got = recv::receive(rk, &o, steps, End::Block)?;
        let what = format!("{:?}/{:?}: limits {:?}, {} messages in {} frames, {} of them not UTF-8", rk, role, (flimit, mlimit), want.len(), fs.len(), want.iter().filter(|w| w.is_none()).count());
        let evs: Vec<&Ev> = got.evs.iter().chain(&got.after).filter(|e| !matches!(e, Ev::Wait(_))).collect();
        for (i, w) in want.iter().enumerate() {
            match (w, evs.get(i)) {
                (Some(m), Some(Ev::Msg(g))) if m == g => c.ev("delivered_after_refusals", (i > first) as u64),
                (None, Some(Ev::Err(_))) => c.ev("refused_for_content", 1),
                (w, e) => viol!("{}: message {} ({}) is within both limits, got {:?}", what, i, if w.is_some() { "valid" } else { "not UTF-8" }, e.map(|e| e.short())),
            }
        }
        c.eval(hash_s(&what));
        c.sample(|| what);
        Ok(())
    });
    x.run_t("fragment_count", x.q(12, 96), 4, |c| {
        let rks = [RK::Receiver, RK::Codec, RK::Client, RK::Framed, RK::AsyncClient, RK::ReaderIter];
        let rk = rks[(c.idx % 6) as usize];
        let role = if c.idx / 6 % 2 == 0 { Role::Client } else { Role::Server };
        match c.idx / 12 % 2 {
            0 if c.idx % 2 == 0 || c.tier == Tier::Thorough => count_limit(c, rk, role, 1_050_000, false, 0)?,
            _ => count_limit(c, rk, role, 900_000, true, c.idx as usize % 3)?,
        }
        Ok(())
    });
    x.run("frame_readers", x.q(6000, 300_000), frame_readers);
    let w = c20::World::new();
    x.run_t("connect_paths", 40 * x.q(2, 20), 4, |c| connect_paths(c, &w));
    // the default message limit needs real volume; every place that has defaults, just below and just above
    const WAYS: [(RK, Role); 8] = [
        (RK::Client, Role::Client),
        (RK::Client, Role::Server),
        (RK::AsyncClient, Role::Client),
        (RK::AsyncClient, Role::Server),
        (RK::Receiver, Role::Server),
        (RK::Framed, Role::Client),
        (RK::ClientSplit, Role::Client),
        (RK::Codec, Role::Server),
    ];
    x.run_t("default_message_limit", x.q(16, 48), 4, |c| {
        let (rk, role) = WAYS[(c.idx / 2 % 8) as usize];
        let masked = role.recv_masked();
        let over = c.idx % 2 == 0;
        // over: one byte more than the limit in unfinished fragments; under: the allowance for overhead left free
        let parts: [usize; 3] = if over { [DEF_FRAME, DEF_FRAME - 5, 6] } else { [DEF_FRAME, DEF_FRAME - 5 - 64 * 3, 4] };
        let mut steps = vec![];
        for (k, n) in parts.iter().enumerate() {
            let key = if masked { Some([0u8; 4]) } else { None };
            let f = F::new(false, if k == 0 { 2 } else { 0 }, vec![]).masked(key);
            let mut d = f.header(*n as u64);
            d.resize(d.len() + n, 0);
            steps.push(Step::Data(d));
        }
        let key = if masked { Some([0u8; 4]) } else { None };
        steps.push(Step::Data(F::new(true, 0, vec![]).masked(key).encode()));
        let mut o = Opts::new(role);
        o.variant = (c.idx / 16 * 3) as usize + 2;
        let got = recv::receive(rk, &o, steps, End::Block)?;
        let what = format!("{:?}/{:?}: default limits, fragments of {:?} bytes", rk, role, parts);
        if over {
            ensure!(got.msgs().is_empty() && got.last_bad(), "{}: {}", what, recv::evs(&got.evs));
        } else {
            let ms = got.msgs();
            ensure!(ms.len() == 1 && ms[0].payload().len() == parts.iter().sum::<usize>(), "{}: {}", what, recv::evs(&got.evs));
        }
        ensure!(DEF_MSG == 2 * DEF_FRAME, "harness constants");
        c.ev("default_limit_cases", 1);
        c.eval(hash_s(&what));
        Ok(())
    });
    x.need("histories_within_limits", 100);
    x.need("oversize_frames_refused", 1000);
    x.need("frames_within_limit", 1000);
    x.need("oversize_messages_refused", 500);
    x.need("refused_at_crossing", 100);
    x.need("messages_within_limits", 300);
    x.need("fragment_floods_refused", 2);
    x.need("connect_paths", 16);
}
