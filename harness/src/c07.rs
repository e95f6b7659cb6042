//! C07: a stream cut at any byte yields only complete messages, and its end is reported again and again.
use crate::core::*;
use crate::exec::{drive, D};
use crate::gen;
use crate::hs;
use crate::recv::{self, Ev, Opts, RK};
use crate::stream::*;
use crate::wire::*;
use std::io::ErrorKind;
use websocket::dataframe::DataFrame;
use websocket::receiver::Receiver;
use websocket::ws::Receiver as _;
use websocket::ClientBuilder;

pub const ENDS: [End; 5] = [
    End::Eof,
    End::Eof,
    End::Err(ErrorKind::ConnectionReset),
    End::Err(ErrorKind::BrokenPipe),
    End::Err(ErrorKind::Other),
];

fn cut_case(c: &mut Case, rk: RK, role: Role, data: &[u8], cut: usize, end: End, bounds: &[usize]) -> Res {
    let masked = role.recv_masked();
    let part = &data[..cut];
    let r = ref_decode(part, masked);
    let want: Vec<M> = r.msgs.into_iter().map(|m| m.0).collect();
    let (steps, seg) = gen::segment(&mut c.rng, part, bounds);
    let mut o = Opts::new(role);
    o.variant = c.rng.below(12);
    o.extra = 4;
    o.max_events = want.len() + 20;
    let got = recv::receive(rk, &o, steps, end)?;
    let ms = got.msgs();
    ensure!(
        ms == want,
        "{:?}/{:?}: stream of {} bytes cut after {} ({:?}, {:?}): complete messages {} delivered {} ({})",
        rk,
        role,
        data.len(),
        cut,
        end,
        seg,
        shorts(&want),
        shorts(&ms),
        recv::evs(&got.evs)
    );
    ensure!(
        matches!(got.evs.last(), Some(Ev::Err(_)) | Some(Ev::End)),
        "{:?}/{:?}: cut after {} ({:?}): end of stream reported as {:?}",
        rk,
        role,
        cut,
        end,
        got.evs.last()
    );
    if let End::Err(_) = end {
        // a transport failure is not a clean end
        ensure!(!matches!(got.evs.last(), Some(Ev::End)), "{:?}/{:?}: transport failure after {} bytes reported as a clean end", rk, role, cut);
    }
    for e in &got.after {
        ensure!(
            matches!(e, Ev::Err(_) | Ev::End),
            "{:?}/{:?}: cut after {} ({:?}): after {:?} a later attempt gave {}",
            rk,
            role,
            cut,
            end,
            got.evs.last(),
            e.short()
        );
    }
    c.ev("cuts", 1);
    c.ev("later_attempts", got.after.len() as u64);
    c.ev(if cut == data.len() || bounds.contains(&cut) { "cut_at_boundary" } else { "cut_inside_frame" }, 1);
    Ok(())
}

/// a handshake cut short is an error, promptly, on every interface
fn handshake_cut(c: &mut Case, role: Role, asy: bool, head: &[u8], cut: usize, end: End) -> Res {
    let (steps, _) = gen::segment(&mut c.rng, &head[..cut], &[]);
    let s = Scripted::new(steps, end);
    let what = format!("{} {:?} handshake cut after {} of {} bytes ({:?})", if asy { "async" } else { "blocking" }, role, cut, head.len(), end);
    c.note(what.clone());
    let done = guard(|| -> Result<bool, Fail> {
        Ok(match (role, asy) {
            (Role::Server, false) => {
                use websocket::server::upgrade::sync::IntoWs;
                IntoWs::into_ws(s.clone()).is_ok()
            }
            (Role::Server, true) => {
                use websocket::server::upgrade::r#async::IntoWs;
                let s = s.clone().asy();
                match drive(IntoWs::into_ws(s.clone()), &[s])? {
                    D::Done(_) => true,
                    D::Err(_) => false,
                    D::Idle => viol!("{}: still waiting", what),
                }
            }
            (Role::Client, false) => {
                let mut b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(hs::KEY);
                b.connect_on(s.clone()).is_ok()
            }
            (Role::Client, true) => {
                let b = ClientBuilder::new("ws://h.example/p").map_err(|e| Fail::H(e.to_string()))?.key(hs::KEY);
                let s = s.clone().asy();
                match drive(b.async_connect_on(s.clone()), &[s])? {
                    D::Done(_) => true,
                    D::Err(_) => false,
                    D::Idle => viol!("{}: still waiting", what),
                }
            }
        })
    })?;
    ensure!(!done, "{}: accepted", what);
    c.ev("handshake_cuts", 1);
    Ok(())
}

pub fn run(x: &Ctx) {
    x.scale(15);
    x.rule("a case encodes generated messages (fragmented, with interleaved controls) and ends the stream - clean end or transport error - after each of its bytes in turn (or at generated bytes for long streams); an independent decoder says which messages were complete; five further receive attempts follow the end; handshakes are cut after every byte as well; distinct by stream bytes, cut, end kind and interface");
    let per = 32u64;
    // every byte of short streams
    x.run("every_byte", per * x.q(12, 400), |c| {
        let i = (c.idx % 32) as usize;
        let rk = recv::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let mut ms = vec![];
        for _ in 0..c.rng.range(1, 4) {
            ms.push(match c.rng.below(6) {
                0 => {
                    let n = c.rng.below(9);
                    M::Text(gen::utf8(&mut c.rng, n))
                }
                1 => {
                    let n = c.rng.below(9);
                    M::Bin(gen::payload(&mut c.rng, n))
                }
                2 => M::Bin(c.rng.bytes(130)),
                3 => M::Close(Some((1000, "x".into()))),
                4 => M::Ping(vec![]),
                _ => M::Pong(vec![1, 2, 3]),
            });
        }
        let (fs, _) = gen::fragmented(&mut c.rng, &ms, role.recv_masked(), 3, 4);
        let data = encode_all(&fs);
        let bounds = gen::bounds_of(&fs);
        c.note(format!("frames {:?}", fs.iter().map(|f| f.short()).collect::<Vec<_>>()));
        let e0 = c.rng.below(ENDS.len());
        for cut in 0..=data.len() {
            let end = ENDS[(e0 + cut) % ENDS.len()];
            cut_case(c, rk, role, &data, cut, end, &bounds)?;
            c.eval(hash(&data) ^ (cut as u64) << 40 ^ i as u64);
        }
        c.sample(|| format!("{:?}/{:?}: {} bytes, every cut: {:?}", rk, role, data.len(), fs.iter().map(|f| f.short()).collect::<Vec<_>>()));
        Ok(())
    });
    x.run("long", per * x.q(40, 1500), |c| {
        let i = (c.idx % 32) as usize;
        let rk = recv::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let mut ms = gen::msgs(&mut c.rng, 4, true);
        let n = *c.rng.pick(&gen::EDGE_BIG);
        ms.push(M::Bin(c.rng.bytes(n)));
        let (fs, _) = gen::fragmented(&mut c.rng, &ms, role.recv_masked(), 3, 3);
        let data = encode_all(&fs);
        let bounds = gen::bounds_of(&fs);
        for _ in 0..4 {
            let cut = match c.rng.below(3) {
                0 => c.rng.below(data.len() + 1),
                1 => (*c.rng.pick(&bounds)).saturating_sub(c.rng.below(3)),
                _ => (*c.rng.pick(&bounds) + c.rng.below(16)).min(data.len()),
            };
            let end = *c.rng.pick(&ENDS);
            cut_case(c, rk, role, &data, cut, end, &bounds)?;
            c.eval(hash(&data) ^ (cut as u64) << 40 ^ i as u64);
        }
        Ok(())
    });
    // low-level frames
    x.run("frames", x.q(400, 20000), |c| {
        let role = if c.rng.chance(1, 2) { Role::Client } else { Role::Server };
        let masked = role.recv_masked();
        let n = *c.rng.pick(&[0, 1, 5, 125, 126, 200]);
        let p = c.rng.bytes(n);
        let k = gen::mask_for(&mut c.rng, masked);
        let f = F::new(true, 2, p).masked(k);
        let data = f.encode();
        for cut in 0..data.len() {
            for mode in 0..3 {
                let end = *c.rng.pick(&ENDS);
                let mut s = Scripted::new(gen::segment(&mut c.rng, &data[..cut], &[]).0, end);
                let mut rcv = Receiver::new(masked);
                for attempt in 0..3 {
                    let r = match mode {
                        0 => DataFrame::read_dataframe(&mut s, masked),
                        1 => DataFrame::read_dataframe_with_limit(&mut s, masked, 1000),
                        _ => rcv.recv_dataframe(&mut s),
                    };
                    ensure!(
                        r.is_err(),
                        "frame {} cut after {} bytes ({:?}): attempt {} delivered a frame of {} bytes",
                        f.short(),
                        cut,
                        end,
                        attempt,
                        r.map(|f| f.data.len()).unwrap_or(0)
                    );
                }
                c.ev("frame_cuts", 1);
            }
        }
        c.eval(hash(&data));
        Ok(())
    });
    x.run("handshakes", 4 * x.q(6, 60), |c| {
        let asy = c.idx % 2 == 0;
        let role = if c.idx / 2 % 2 == 0 { Role::Client } else { Role::Server };
        let head = recv::handshake_bytes(role);
        for cut in 0..head.len() {
            let end = *c.rng.pick(&ENDS);
            handshake_cut(c, role, asy, &head, cut, end)?;
        }
        c.eval(c.idx);
        Ok(())
    });
    x.need("cuts", 5000);
    x.need("cut_inside_frame", 1000);
    x.need("cut_at_boundary", 300);
    x.need("handshake_cuts", 1000);
}
