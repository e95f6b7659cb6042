//! C12: message representations convert losslessly.
use crate::c02::{df_of, Chunked};
use crate::core::*;
use crate::gen;
use crate::recv::errclass;
use crate::send::{as_df, borrowed, owned_cow};
use crate::wire::*;
use std::borrow::Cow;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::message::{CloseData, Message, Type};
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::Message as MessageTrait;
use websocket::OwnedMessage;

fn ty(m: &M) -> Type {
    match m {
        M::Text(_) => Type::Text,
        M::Bin(_) => Type::Binary,
        M::Ping(_) => Type::Ping,
        M::Pong(_) => Type::Pong,
        M::Close(_) => Type::Close,
    }
}
/// main payload and code as the borrowed form holds them
fn parts(m: &M) -> (Option<u16>, Vec<u8>) {
    match m {
        M::Close(Some((c, r))) => (Some(*c), r.as_bytes().to_vec()),
        m => (None, m.payload()),
    }
}
fn chk_o(how: &str, m: &M, o: &OwnedMessage) -> Res {
    ensure!(M::of(o) == *m, "{}: {} became {}", how, m.short(), M::of(o).short());
    let k = m.op();
    let p = [o.is_close(), o.is_ping(), o.is_pong(), o.is_control(), o.is_data()];
    let w = [k == 8, k == 9, k == 10, k >= 8, k < 8];
    ensure!(p == w, "{}: predicates (close, ping, pong, control, data) of {} are {:?}", how, m.short(), p);
    Ok(())
}
fn chk_b(how: &str, m: &M, b: &Message) -> Res {
    let (code, p) = parts(m);
    ensure!(
        b.opcode == ty(m) && b.cd_status_code == code && b.payload[..] == p[..],
        "{}: {} became {:?} {:?} {}",
        how,
        m.short(),
        b.opcode,
        b.cd_status_code,
        hex(&b.payload)
    );
    Ok(())
}
fn chk_frame<D: DataFrameTrait>(how: &str, m: &M, d: &D) -> Res {
    let p = m.payload();
    ensure!(d.opcode() == m.op(), "{}: {} has opcode {}", how, m.short(), d.opcode());
    ensure!(d.is_last() && *d.reserved() == [false; 3], "{}: {} is not final or has reserved bits", how, m.short());
    ensure!(d.size() == p.len(), "{}: size of {} is {}", how, m.short(), d.size());
    let mut w = vec![];
    let r = d.write_payload(&mut w);
    ensure!(r.is_ok() && w == p, "{}: write_payload of {} gives {}", how, m.short(), hex(&w));
    // a piecewise writer gets the same bytes
    struct One(Vec<u8>);
    impl std::io::Write for One {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let n = b.len().min(1 + self.0.len() % 3);
            self.0.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    if p.len() < 3000 {
        let mut o = One(vec![]);
        let r = d.write_payload(&mut o);
        ensure!(r.is_ok() && o.0 == p, "{}: write_payload of {} through short writes gives {}", how, m.short(), hex(&o.0));
    }
    Ok(())
}
/// current representation in a chain of conversions
enum Rep {
    O(OwnedMessage),
    B(Message<'static>),
    Fs(Vec<DataFrame>),
}
fn owned_msg<'a>(b: Message<'a>) -> Message<'static> {
    Message { opcode: b.opcode, cd_status_code: b.cd_status_code, payload: Cow::Owned(b.payload.into_owned()) }
}
fn split_frames(c: &mut Case, m: &M) -> Vec<F> {
    let p = m.payload();
    if m.is_control() {
        return vec![F::new(true, m.op(), p)];
    }
    let maxf = *c.rng.pick(&[1, 2, 3, 8]);
    let ps = gen::split_payload(&mut c.rng, &p, maxf);
    let n = ps.len();
    ps.into_iter().enumerate().map(|(i, q)| F::new(i + 1 == n, if i == 0 { m.op() } else { 0 }, q)).collect()
}
fn werr(how: &str, m: &M, e: websocket::WebSocketError) -> Fail {
    Fail::V(format!("{} refused {}: {}", how, m.short(), errclass(&e)))
}

fn chain(c: &mut Case, m: &M) -> Res {
    let mut rep = match c.rng.below(3) {
        0 => Rep::O(m.owned()),
        1 => Rep::B(owned_cow(m)),
        _ => Rep::Fs(split_frames(c, m).iter().map(df_of).collect()),
    };
    let n = c.rng.range(2, 7);
    let mut path = String::new();
    for _ in 0..n {
        let step = c.rng.below(6);
        let (r, name) = match (rep, step) {
            (Rep::O(o), 0 | 1) => (Rep::B(Message::from(o)), "Message::from(owned)"),
            (Rep::O(o), 2) => (Rep::B(MessageTrait::from_dataframes(vec![o]).map_err(|e| werr("Message::from_dataframes([OwnedMessage])", m, e))?), "Message::from_dataframes([owned])"),
            (Rep::O(o), 3) => (Rep::O(MessageTrait::from_dataframes(vec![o]).map_err(|e| werr("OwnedMessage::from_dataframes([OwnedMessage])", m, e))?), "Owned::from_dataframes([owned])"),
            (Rep::O(o), _) => (
                Rep::Fs(vec![DataFrame::new(o.is_last(), Opcode::new(DataFrameTrait::opcode(&o)).unwrap(), o.take_payload())]),
                "frame(owned)",
            ),
            (Rep::B(b), 0 | 1) => (Rep::O(OwnedMessage::from(b)), "OwnedMessage::from(message)"),
            (Rep::B(b), 2) => (Rep::O(MessageTrait::from_dataframes(vec![b]).map_err(|e| werr("OwnedMessage::from_dataframes([Message])", m, e))?), "Owned::from_dataframes([message])"),
            (Rep::B(b), 3) => (Rep::B(MessageTrait::from_dataframes(vec![b]).map_err(|e| werr("Message::from_dataframes([Message])", m, e))?), "Message::from_dataframes([message])"),
            (Rep::B(b), _) => (
                Rep::Fs(vec![DataFrame::new(b.is_last(), Opcode::new(DataFrameTrait::opcode(&b)).unwrap(), b.take_payload())]),
                "frame(message)",
            ),
            (Rep::Fs(v), 0 | 1) => (Rep::O(MessageTrait::from_dataframes(v).map_err(|e| werr("OwnedMessage::from_dataframes", m, e))?), "Owned::from_dataframes"),
            (Rep::Fs(v), 2 | 3) => (Rep::B(MessageTrait::from_dataframes(v).map_err(|e| werr("Message::from_dataframes", m, e))?), "Message::from_dataframes"),
            (Rep::Fs(_), 4) => (Rep::Fs(split_frames(c, m).iter().map(df_of).collect()), "refragmented"),
            (Rep::Fs(v), _) => {
                // custom frame type
                let v: Vec<Chunked> = v
                    .into_iter()
                    .map(|d| Chunked::new(&F::new(d.finished, d.opcode as u8, d.data), 3))
                    .collect();
                (Rep::B(MessageTrait::from_dataframes(v).map_err(|e| werr("Message::from_dataframes(custom)", m, e))?), "Message::from_dataframes(custom)")
            }
        };
        path.push_str(name);
        path.push_str("; ");
        match &r {
            Rep::O(o) => chk_o(&path, m, o)?,
            Rep::B(b) => chk_b(&path, m, b)?,
            Rep::Fs(_) => {}
        }
        rep = r;
        c.ev("conversions", 1);
    }
    c.seen("conversion_path", hash_s(&path));
    Ok(())
}
fn one(c: &mut Case, m: &M) -> Res {
    c.note(m.short());
    let p = m.payload();
    let o = m.owned();
    let b = borrowed(m);
    chk_o("constructed", m, &o)?;
    chk_b("borrowed constructor", m, &b)?;
    chk_b("owning constructor", m, &owned_cow(m))?;
    chk_frame("OwnedMessage", m, &o)?;
    chk_frame("Message", m, &b)?;
    chk_frame("DataFrame", m, &as_df(m))?;
    ensure!(o.clone().take_payload() == p, "OwnedMessage::take_payload of {}: {}", m.short(), hex(&o.clone().take_payload()));
    ensure!(b.clone().take_payload() == p, "Message::take_payload of {}: {}", m.short(), hex(&b.clone().take_payload()));
    ensure!(as_df(m).take_payload() == p, "DataFrame::take_payload of {}", m.short());
    chk_o("OwnedMessage::from(borrowed)", m, &OwnedMessage::from(b.clone()))?;
    chk_b("Message::from(owned)", m, &Message::from(o.clone()))?;
    ensure!(OwnedMessage::from(b.clone()) == o && Message::from(o.clone()) == b, "conversions of {} are not equal to the constructed forms", m.short());
    match m {
        M::Text(s) => {
            chk_o("From<String>", m, &OwnedMessage::from(s.clone()))?;
            chk_b("Message::text(&str)", m, &Message::text(&s[..]))?;
            chk_b("Message::text(String)", m, &Message::text(s.clone()))?;
        }
        M::Bin(v) => {
            chk_o("From<Vec<u8>>", m, &OwnedMessage::from(v.clone()))?;
            chk_b("Message::binary(Cow)", m, &Message::binary(Cow::Borrowed(&v[..])))?;
            chk_b("Message::binary(Vec)", m, &Message::binary(v.clone()))?;
        }
        M::Close(Some((code, r))) => {
            let cd = CloseData::new(*code, r.clone());
            ensure!(cd.status_code == *code && cd.reason == *r, "CloseData::new changed {}", m.short());
            let bytes = cd.into_bytes();
            ensure!(bytes.as_ref().map(|x| x == &p).unwrap_or(false), "CloseData::into_bytes of {}: {:?}", m.short(), bytes);
        }
        _ => {}
    }
    // pong
    let mut q = borrowed(m);
    let r = q.into_pong();
    if let M::Ping(d) = m {
        ensure!(r.is_ok(), "into_pong refused {}", m.short());
        chk_b("into_pong", &M::Pong(d.clone()), &q)?;
        c.ev("ping_to_pong", 1);
    } else {
        ensure!(r.is_err(), "into_pong accepted {}", m.short());
        chk_b("refused into_pong", m, &q)?;
        c.ev("into_pong_refused", 1);
    }
    // serialised form parsed back by the independent parser
    for masked in [false, true] {
        for (name, r) in [
            ("OwnedMessage::serialize", { let mut v = vec![]; o.serialize(&mut v, masked).map(|_| v) }),
            ("Message::serialize", { let mut v = vec![]; b.serialize(&mut v, masked).map(|_| v) }),
        ] {
            if m.is_control() && p.len() > 125 {
                continue;
            }
            match r {
                Err(e) => return Err(werr(name, m, e)),
                Ok(v) => {
                    let fs = parse_sent(&v).map_err(Fail::V)?;
                    ensure!(
                        fs.len() == 1 && fs[0].fin && fs[0].rsv == 0 && fs[0].op == m.op() && fs[0].payload == p,
                        "{} of {} gives {}",
                        name,
                        m.short(),
                        hex(&v)
                    );
                }
            }
        }
    }
    c.ev("messages", 1);
    Ok(())
}
fn any(r: &mut Rng, big: bool) -> M {
    if r.chance(1, 3) {
        // control messages beyond what may be sent convert as well
        let n = gen::size(r, false);
        match r.below(3) {
            0 => M::Ping(gen::payload(r, n)),
            1 => M::Pong(gen::payload(r, n)),
            _ => {
                let code = if r.chance(1, 2) { *r.pick(&gen::CODES) } else { r.u64() as u16 };
                M::Close(Some((code, gen::utf8(r, n))))
            }
        }
    } else {
        gen::msg(r, big)
    }
}
/// Frame sequences that are not one message are refused.
fn refused(c: &mut Case) -> Res {
    let m = gen::msg(&mut c.rng, false);
    let mut fs = split_frames(c, &m);
    let why = match c.rng.below(6) {
        0 => {
            fs.clear();
            "no frames"
        }
        1 => {
            let i = c.rng.below(fs.len());
            fs[i].rsv = c.rng.range(1, 7) as u8;
            "reserved bits"
        }
        2 => {
            fs[0].op = *c.rng.pick(&[3, 4, 5, 6, 7, 11, 12, 13, 14, 15]);
            "reserved opcode"
        }
        3 => {
            fs[0].op = 0;
            "starts with a continuation"
        }
        4 => {
            let op = *c.rng.pick(&[1, 2, 8, 9, 10, 3, 12]);
            let mut f = F::new(true, op, vec![]);
            f.payload = b"ab".to_vec();
            fs.push(f);
            "second frame is not a continuation"
        }
        _ => {
            let p = c.rng.below(3);
            let bad: &[u8] = *c.rng.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\x80"]);
            let mut v = gen::utf8(&mut c.rng, p).into_bytes();
            v.extend_from_slice(bad);
            if c.rng.chance(1, 2) {
                let mut w = vec![3, 0xe8];
                w.extend(v);
                fs = vec![F::new(true, 8, w)];
            } else {
                fs = vec![F::new(true, 1, v)];
            }
            "invalid UTF-8"
        }
    };
    let v: Vec<DataFrame> = fs.iter().map(df_of).collect();
    let a: Result<OwnedMessage, _> = guard(|| Ok(MessageTrait::from_dataframes(v.clone())))?;
    let b: Result<Message, _> = guard(|| Ok(MessageTrait::from_dataframes(v)))?;
    let show: Vec<String> = fs.iter().map(|f| f.short()).collect();
    ensure!(a.is_err() && b.is_err(), "{}: frames {:?} became a message {:?}", why, show, a.is_ok());
    c.ev("bad_sequences_refused", 1);
    c.eval(hash(&encode_all(&fs)) ^ hash_s(why));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.scale(12);
    x.rule("a case builds one message of any kind in every representation (borrowed, owning, OwnedMessage, frame, fragment list, custom frame type), checks each against the description it was built from, walks a random chain of conversions comparing after every step, and tries the ping-to-pong conversion; other cases feed frame lists that are no message; distinct by content and conversion path");
    x.run("messages", x.q(40_000, 1_500_000), |c| {
        let big = c.idx % 50 == 0;
        let m = any(&mut c.rng, big);
        guard(|| one(c, &m))?;
        for _ in 0..3 {
            guard(|| chain(c, &m))?;
        }
        c.eval(hash(&m.payload()) ^ m.op() as u64);
        c.sample(|| m.short());
        Ok(())
    });
    x.run("close_codes", 65536, |c| {
        // every status code, with and without a reason
        let code = c.idx as u16;
        for m in [M::Close(Some((code, String::new()))), M::Close(Some((code, "bye \u{20ac}".into())))] {
            guard(|| one(c, &m))?;
            guard(|| chain(c, &m))?;
        }
        c.ev("close_codes", 1);
        c.eval(c.idx);
        Ok(())
    });
    x.run("refused", x.q(20_000, 600_000), refused);
    x.need("conversions", 100_000);
    x.need("ping_to_pong", 1000);
    x.need("into_pong_refused", 1000);
    x.need("close_codes", 60_000);
    x.need("bad_sequences_refused", 5000);
}
