//! C03: client frames are masked with fresh keys, server frames never.
use crate::core::*;
use crate::c02;
use crate::gen;
use crate::send::{self, FORMS, SK};
use crate::stream::*;
use crate::wire::*;
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;
use websocket_base::ws::util::mask::{gen_mask, mask_data, Masker};

fn keys_of(out: &[u8]) -> Result<Vec<[u8; 4]>, Fail> {
    match parse_sent(out) {
        Ok(fs) => Ok(fs.iter().filter_map(|f| f.mask).collect()),
        Err(e) => Err(Fail::V(format!("bytes on the wire: {}", e))),
    }
}
/// statistics that random 32-bit keys pass except with negligible probability
fn judge_keys(what: &str, ks: &[[u8; 4]]) -> Res {
    let n = ks.len();
    let mut v: Vec<u32> = ks.iter().map(|k| u32::from_be_bytes(*k)).collect();
    let adj = v.windows(2).filter(|w| w[0] == w[1]).count();
    ensure!(adj <= 3, "{}: {} of {} frames reuse the previous frame's key", what, adj, n);
    if n >= 400 {
        for bit in 0..32 {
            let ones = v.iter().filter(|k| *k >> bit & 1 == 1).count();
            let lo = n as f64 * 0.5 - (n as f64).sqrt() * 6.0;
            ensure!(
                ones as f64 > lo && ((n - ones) as f64) > lo,
                "{}: key bit {} is set in {} of {} keys",
                what,
                bit,
                ones,
                n
            );
        }
    }
    v.sort_unstable();
    let coll = v.windows(2).filter(|w| w[0] == w[1]).count() as f64;
    let mean = (n as f64) * (n as f64) / 8_589_934_592.0;
    let bound = mean + 12.0 * mean.sqrt() + 4.0;
    ensure!(coll <= bound, "{}: {} repeated keys among {} frames (random keys would give about {:.2})", what, coll, n, mean);
    Ok(())
}

/// successive keys must not predict one another: equal bytes and bits at a distance
fn judge_sequence(what: &str, ks: &[[u8; 4]]) -> Res {
    let n = ks.len();
    let v: Vec<u32> = ks.iter().map(|k| u32::from_be_bytes(*k)).collect();
    for lag in 1..=6usize {
        let m = (n - lag) as f64;
        let mut eq = [[0u32; 4]; 4];
        let mut words = 0u32;
        for (a, b) in ks.iter().zip(&ks[lag..]) {
            for i in 0..4 {
                for j in 0..4 {
                    eq[i][j] += (a[i] == b[j]) as u32;
                }
            }
        }
        for i in 0..4 {
            for j in 0..4 {
                let e = eq[i][j] as f64;
                let (mean, sd) = (m / 256.0, (m / 256.0).sqrt());
                ensure!(e < mean + 9.0 * sd + 3.0, "{}: byte {} of a key equals byte {} of the key {} before it in {} of {} cases", what, j, i, lag, e, m);
            }
        }
        // the same word with its bits moved, plus one, inverted
        for w in v.windows(lag + 1) {
            let (a, b) = (w[0], w[lag]);
            words += (a.rotate_left(8) == b || a.rotate_left(16) == b || a.rotate_left(24) == b || a.wrapping_add(1) == b || a.wrapping_sub(1) == b || !a == b) as u32;
        }
        ensure!(words <= 6, "{}: {} keys follow simply from the key {} before them", what, words, lag);
        for s in 0..32 {
            // bit k against bit (k + s) % 32, all k together and each k
            let mut per = [0u32; 32];
            for (a, b) in v.iter().zip(&v[lag..]).take(400_000) {
                let d = a ^ b.rotate_left(s);
                for (k, p) in per.iter_mut().enumerate() {
                    *p += d >> k & 1;
                }
            }
            let m = m.min(400_000.0);
            for (k, p) in per.iter().enumerate() {
                let dev = (*p as f64 - m / 2.0).abs();
                ensure!(dev < 4.5 * m.sqrt(), "{}: bit {} of a key depends on the key {} before it: {} of {} differ at rotation {}", what, k, lag, p, m, s);
            }
        }
    }
    Ok(())
}

/// child process mode: print the first keys this process uses
pub fn print_keys() {
    let mut s = String::new();
    for sk in [SK::Sender, SK::Serialize, SK::Codec, SK::Client] {
        let ms: Vec<M> = (0..8).map(|i| M::Bin(vec![i; 6])).collect();
        if let Ok(r) = send::send(sk, FORMS[0], Role::Client, &ms, vec![], vec![], 0) {
            if let Ok(k) = keys_of(&r.out) {
                for x in k {
                    s.push_str(&hex(&x));
                    s.push('\n');
                }
            }
        }
    }
    print!("{}", s);
}

pub fn run(x: &Ctx) {
    x.scale(5);
    x.rule("a case sends generated messages or frames in one role through one interface over a transport with partial writes; the monitor parses the wire bytes, checks mask presence per role, unmasks independently and collects every masking key for repetition and bit statistics; masking helpers are also driven directly; non-trivial: at least one frame with a payload; distinct by content and interface");
    x.assume("the statistical bounds have a false-alarm probability below 1e-9 for truly random keys");
    let all: Mutex<Vec<[u8; 4]>> = Mutex::new(vec![]);
    let by_iface: Mutex<HashMap<String, Vec<[u8; 4]>>> = Mutex::new(HashMap::new());
    let per = (send::ALL.len() * 2) as u64;
    x.run("roles", per * x.q(200, 10000), |c| {
        let i = (c.idx % per) as usize;
        let sk = send::ALL[i / 2];
        let role = if i % 2 == 0 { Role::Client } else { Role::Server };
        let form = *c.rng.pick(&FORMS);
        let mut ms = gen::msgs(&mut c.rng, 10, c.idx % 5 == 0);
        if ms.is_empty() {
            ms.push(M::Ping(vec![]));
        }
        let (wp, fpn) = gen::wplan(&mut c.rng, sk.is_async_io());
        let variant = c.rng.below(24);
        c.note(format!("{:?} {:?} {:?} {:?} {}", sk, role, form, wp, shorts(&ms)));
        let sent = send::send(sk, form, role, &ms, wp, fpn, variant)?;
        let fs = match parse_sent(&sent.out) {
            Ok(f) => f,
            Err(e) => viol!("{:?}/{:?}: bytes on the wire: {}", sk, role, e),
        };
        ensure!(fs.len() == ms.len(), "{:?}/{:?}: {} frames for {} messages", sk, role, fs.len(), ms.len());
        for (f, m) in fs.iter().zip(&ms) {
            ensure!(
                f.mask.is_some() == role.send_masked(),
                "{:?} in the {:?} role sent {} {}",
                sk,
                role,
                m.short(),
                if f.mask.is_some() { "masked" } else { "without a mask" }
            );
            ensure!(f.payload == m.payload(), "{:?}/{:?}: payload does not unmask to the original: {} vs {}", sk, role, hex(&f.payload), hex(&m.payload()));
        }
        c.ev(if role == Role::Client { "client_frames" } else { "server_frames" }, fs.len() as u64);
        c.eval(gen::fp(&ms) ^ i as u64);
        c.seen("interface", i as u64);
        if role == Role::Client {
            let ks: Vec<[u8; 4]> = fs.iter().filter_map(|f| f.mask).collect();
            by_iface.lock().unwrap().entry(format!("{:?}", sk)).or_default().extend(&ks);
            all.lock().unwrap().extend(&ks);
        }
        c.sample(|| format!("{:?} {:?}: {}", sk, role, shorts(&ms)));
        Ok(())
    });
    x.run("frames", 18 * x.q(150, 8000), |c| {
        let k = (c.idx % 9) as usize;
        let role = if c.idx / 9 % 2 == 0 { Role::Client } else { Role::Server };
        let n = c.rng.range(1, 6);
        let fs: Vec<F> = (0..n).map(|_| c02::any_frame(&mut c.rng, c.idx % 5 == 0)).collect();
        let (wp, fpn) = gen::wplan(&mut c.rng, k >= 7);
        let chunk = if c.rng.chance(1, 3) { 0 } else { *c.rng.pick(&[1, 2, 3, 5, 6, 7, 9, 1000]) };
        c.note(format!("{} {:?} chunk {} {:?}", c02::FK[k], role, chunk, fs.iter().map(|f| f.short()).collect::<Vec<_>>()));
        let variant = c.rng.below(24);
        let (out, _) = c02::send_frames(k, role, &fs, chunk, wp, fpn, variant)?;
        let got = match parse_sent(&out) {
            Ok(f) => f,
            Err(e) => viol!("{}/{:?}: {}", c02::FK[k], role, e),
        };
        ensure!(got.len() == fs.len(), "{}: {} frames for {}", c02::FK[k], got.len(), fs.len());
        for (g, f) in got.iter().zip(&fs) {
            ensure!(g.mask.is_some() == role.send_masked(), "{} in the {:?} role: frame {} has mask {:?}", c02::FK[k], role, f.short(), g.mask);
            ensure!(g.payload == f.payload, "{}/{:?}: frame {} does not unmask to the original payload", c02::FK[k], role, f.short());
        }
        if role == Role::Client {
            let ks: Vec<[u8; 4]> = got.iter().filter_map(|f| f.mask).collect();
            by_iface.lock().unwrap().entry(format!("frames {}", c02::FK[k])).or_default().extend(&ks);
            all.lock().unwrap().extend(&ks);
        }
        c.ev("low_level_frames", fs.len() as u64);
        c.eval(hash(&out.len().to_be_bytes()) ^ c.idx);
        Ok(())
    });
    // many frames per interface: repetition statistics
    x.run("bulk", 21 * x.q(4, 40), |c| {
        let sk = send::ALL[(c.idx % 21) as usize];
        let ms: Vec<M> = (0..2000).map(|i| M::Bin(vec![i as u8; 4])).collect();
        let form = *c.rng.pick(&FORMS);
        let sent = send::send(sk, form, Role::Client, &ms, vec![], vec![], c.idx as usize % 24)?;
        let ks = keys_of(&sent.out)?;
        ensure!(ks.len() == ms.len(), "{:?}: {} masked frames of {}", sk, ks.len(), ms.len());
        judge_keys(&format!("{:?}, one connection", sk), &ks)?;
        c.ev("client_frames", ks.len() as u64);
        c.eval(c.idx);
        by_iface.lock().unwrap().entry(format!("{:?}", sk)).or_default().extend(&ks);
        all.lock().unwrap().extend(&ks);
        Ok(())
    });
    // first frame of many fresh connections, and of fresh threads
    x.run("connections", 21 * x.q(4, 20), |c| {
        let sk = send::ALL[(c.idx % 21) as usize];
        let mut ks = vec![];
        for _ in 0..500 {
            let sent = send::send(sk, FORMS[0], Role::Client, &[M::Bin(vec![9; 5])], vec![], vec![], 0)?;
            ks.extend(keys_of(&sent.out)?);
        }
        judge_keys(&format!("{:?}, first frame of 500 connections", sk), &ks)?;
        all.lock().unwrap().extend(&ks);
        c.ev("connections", 500);
        c.eval(c.idx);
        Ok(())
    });
    x.run("threads", x.q(4, 20), |c| {
        let mut ks = vec![];
        for _ in 0..40 {
            let hs: Vec<_> = (0..8)
                .map(|i| {
                    std::thread::spawn(move || {
                        let sk = [SK::Sender, SK::Codec, SK::Serialize, SK::Writer][i % 4];
                        let ms = vec![M::Bin(vec![1; 4]); 2];
                        send::send(sk, FORMS[0], Role::Client, &ms, vec![], vec![], 0).and_then(|s| keys_of(&s.out))
                    })
                })
                .collect();
            for h in hs {
                ks.extend(h.join().map_err(|_| Fail::H("thread".into()))??);
            }
        }
        judge_keys("first two frames of fresh threads", &ks)?;
        c.ev("threads", 320);
        c.eval(c.idx);
        all.lock().unwrap().extend(&ks);
        Ok(())
    });
    x.run_t("processes", x.q(2, 6), 2, |c| {
        let exe = std::env::current_exe().map_err(|e| Fail::H(e.to_string()))?;
        let mut ks: Vec<[u8; 4]> = vec![];
        let nproc = 12;
        for _ in 0..nproc {
            let o = std::process::Command::new(&exe).arg("c03-keys").output().map_err(|e| Fail::H(e.to_string()))?;
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let mut n = 0;
            for l in t.lines() {
                if let Ok(v) = u32::from_str_radix(l.trim(), 16) {
                    ks.push(v.to_be_bytes());
                    n += 1;
                }
            }
            if n != 32 {
                return Err(Fail::H(format!("key process printed {} keys", n)));
            }
        }
        judge_keys("keys of separate processes", &ks)?;
        c.ev("processes", nproc);
        c.eval(c.idx);
        all.lock().unwrap().extend(&ks);
        Ok(())
    });
    // the masking primitives themselves
    x.run("primitives", x.q(4000, 400000), |c| {
        let n = gen::size(&mut c.rng, c.idx % 20 == 0);
        let data = gen::payload(&mut c.rng, n);
        let key = gen::key(&mut c.rng);
        let want: Vec<u8> = data.iter().enumerate().map(|(i, b)| b ^ key[i % 4]).collect();
        let m = mask_data(key, &data);
        ensure!(m == want, "mask_data({:?}) of {} gives {}", key, hex(&data), hex(&m));
        ensure!(mask_data(key, &m) == data, "mask_data is not its own inverse");
        let (wp, _) = gen::wplan(&mut c.rng, false);
        let s = Scripted::empty().wplan(wp.clone(), vec![]);
        let mut sink = s.clone();
        let res = {
            let mut mk = Masker::new(key, &mut sink);
            let mut r = Ok(());
            let chunk = *c.rng.pick(&[1, 2, 3, 5, 7, 64, 100000]);
            for part in data.chunks(chunk) {
                r = mk.write_all(part);
                if r.is_err() {
                    break;
                }
            }
            r
        };
        ensure!(res.is_ok(), "masking writer failed: {:?}", res);
        let out = s.out();
        ensure!(
            out == want,
            "masking writer over a transport accepting {:?}: {} bytes {} should be {}",
            wp,
            data.len(),
            hex(&out),
            hex(&want)
        );
        c.ev("masker_writes", s.l().write_calls);
        c.ev("masker_short_writes", s.l().short_writes);
        c.eval(hash(&data) ^ hash(&key));
        Ok(())
    });
    x.run("generator", 1, |c| {
        let mut ks = vec![];
        for _ in 0..x.q(1_000_000, 4_000_000) {
            ks.push(gen_mask());
        }
        judge_keys("gen_mask", &ks)?;
        judge_sequence("gen_mask", &ks)?;
        c.ev("generated_keys", ks.len() as u64);
        c.eval(1);
        Ok(())
    });
    x.run("all_keys", 1, |c| {
        let v = all.lock().unwrap();
        judge_keys("all frames of this run", &v)?;
        for (k, v) in by_iface.lock().unwrap().iter() {
            judge_keys(&format!("all frames sent through {}", k), v)?;
        }
        c.ev("keys_observed", v.len() as u64);
        c.eval(2);
        Ok(())
    });
    x.need("client_frames", 50_000);
    x.need("server_frames", 1000);
    x.need("keys_observed", 50_000);
    x.need("masker_short_writes", 100);
}
