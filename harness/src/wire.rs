//! Independent WebSocket wire format: encoder (also for malformed frames), strict parser, reference decoder.
use crate::crypto::utf8_valid;
use websocket::OwnedMessage;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Client,
    Server,
}
impl Role {
    pub fn peer(self) -> Role {
        if self == Role::Client {
            Role::Server
        } else {
            Role::Client
        }
    }
    /// frames this role receives carry a mask
    pub fn recv_masked(self) -> bool {
        self == Role::Server
    }
    pub fn send_masked(self) -> bool {
        self == Role::Client
    }
}

/// Message as the oracle sees it.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum M {
    Text(String),
    Bin(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(Option<(u16, String)>),
}
impl M {
    pub fn of(m: &OwnedMessage) -> M {
        match m {
            OwnedMessage::Text(s) => M::Text(s.clone()),
            OwnedMessage::Binary(b) => M::Bin(b.clone()),
            OwnedMessage::Ping(b) => M::Ping(b.clone()),
            OwnedMessage::Pong(b) => M::Pong(b.clone()),
            OwnedMessage::Close(None) => M::Close(None),
            OwnedMessage::Close(Some(c)) => M::Close(Some((c.status_code, c.reason.clone()))),
        }
    }
    pub fn owned(&self) -> OwnedMessage {
        match self {
            M::Text(s) => OwnedMessage::Text(s.clone()),
            M::Bin(b) => OwnedMessage::Binary(b.clone()),
            M::Ping(b) => OwnedMessage::Ping(b.clone()),
            M::Pong(b) => OwnedMessage::Pong(b.clone()),
            M::Close(None) => OwnedMessage::Close(None),
            M::Close(Some((c, r))) => {
                OwnedMessage::Close(Some(websocket::CloseData { status_code: *c, reason: r.clone() }))
            }
        }
    }
    pub fn op(&self) -> u8 {
        match self {
            M::Text(_) => 1,
            M::Bin(_) => 2,
            M::Close(_) => 8,
            M::Ping(_) => 9,
            M::Pong(_) => 10,
        }
    }
    pub fn is_control(&self) -> bool {
        self.op() >= 8
    }
    pub fn payload(&self) -> Vec<u8> {
        match self {
            M::Text(s) => s.as_bytes().to_vec(),
            M::Bin(b) | M::Ping(b) | M::Pong(b) => b.clone(),
            M::Close(None) => vec![],
            M::Close(Some((c, r))) => {
                let mut v = c.to_be_bytes().to_vec();
                v.extend_from_slice(r.as_bytes());
                v
            }
        }
    }
    pub fn short(&self) -> String {
        let p = self.payload();
        let k = match self.op() {
            1 => "Text",
            2 => "Binary",
            8 => "Close",
            9 => "Ping",
            _ => "Pong",
        };
        if p.len() <= 24 {
            format!("{}[{}]={}", k, p.len(), crate::core::hex(&p))
        } else {
            format!("{}[{}]#{:08x}", k, p.len(), crate::core::hash(&p) as u32)
        }
    }
    pub fn build(op: u8, payload: &[u8]) -> Option<M> {
        match op {
            1 => {
                if utf8_valid(payload) {
                    Some(M::Text(String::from_utf8(payload.to_vec()).ok()?))
                } else {
                    None
                }
            }
            2 => Some(M::Bin(payload.to_vec())),
            8 => {
                if payload.is_empty() {
                    Some(M::Close(None))
                } else if payload.len() == 1 || !utf8_valid(&payload[2..]) {
                    None
                } else {
                    Some(M::Close(Some((
                        (payload[0] as u16) << 8 | payload[1] as u16,
                        String::from_utf8(payload[2..].to_vec()).ok()?,
                    ))))
                }
            }
            9 => Some(M::Ping(payload.to_vec())),
            10 => Some(M::Pong(payload.to_vec())),
            _ => None,
        }
    }
}
pub fn shorts(v: &[M]) -> String {
    let s: Vec<String> = v.iter().take(40).map(|m| m.short()).collect();
    format!("[{}]{}", s.join(", "), if v.len() > 40 { format!("..{}", v.len()) } else { String::new() })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LenForm {
    Min,
    L16,
    L64,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct F {
    pub fin: bool,
    pub rsv: u8,
    pub op: u8,
    pub mask: Option<[u8; 4]>,
    pub len: LenForm,
    pub payload: Vec<u8>,
}
impl F {
    pub fn new(fin: bool, op: u8, payload: Vec<u8>) -> F {
        F { fin, rsv: 0, op, mask: None, len: LenForm::Min, payload }
    }
    pub fn masked(mut self, k: Option<[u8; 4]>) -> F {
        self.mask = k;
        self
    }
    pub fn short(&self) -> String {
        format!(
            "{}{}op{}{}{:?}[{}]",
            if self.fin { "F" } else { "-" },
            if self.rsv != 0 { format!("r{}", self.rsv) } else { String::new() },
            self.op,
            if self.mask.is_some() { "m" } else { "u" },
            self.len,
            self.payload.len()
        )
    }
    pub fn header(&self, announced: u64) -> Vec<u8> {
        let mut o = vec![(self.fin as u8) << 7 | self.rsv << 4 | self.op];
        let mb = if self.mask.is_some() { 0x80 } else { 0 };
        let form = match self.len {
            LenForm::Min => {
                if announced <= 125 {
                    0
                } else if announced <= 65535 {
                    1
                } else {
                    2
                }
            }
            LenForm::L16 => 1,
            LenForm::L64 => 2,
        };
        match form {
            0 => o.push(mb | announced as u8),
            1 => {
                o.push(mb | 126);
                o.extend_from_slice(&(announced as u16).to_be_bytes());
            }
            _ => {
                o.push(mb | 127);
                o.extend_from_slice(&announced.to_be_bytes());
            }
        }
        if let Some(k) = self.mask {
            o.extend_from_slice(&k);
        }
        o
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = self.header(self.payload.len() as u64);
        match self.mask {
            Some(k) => {
                let base = o.len();
                o.extend_from_slice(&self.payload);
                for i in 0..self.payload.len() {
                    o[base + i] ^= k[i & 3];
                }
            }
            None => o.extend_from_slice(&self.payload),
        }
        o
    }
}
pub fn encode_all(fs: &[F]) -> Vec<u8> {
    let mut v = vec![];
    for f in fs {
        v.extend(f.encode());
    }
    v
}

/// One frame from the front of `b`. Ok(None): incomplete. No protocol judgement besides structure.
pub fn parse_one(b: &[u8]) -> Option<(F, usize)> {
    if b.len() < 2 {
        return None;
    }
    let mut p = 2;
    let l7 = b[1] & 0x7f;
    let (len, form): (u64, LenForm) = match l7 {
        126 => {
            if b.len() < 4 {
                return None;
            }
            p = 4;
            (u64::from(b[2]) << 8 | u64::from(b[3]), LenForm::L16)
        }
        127 => {
            if b.len() < 10 {
                return None;
            }
            p = 10;
            let mut a = [0u8; 8];
            a.copy_from_slice(&b[2..10]);
            (u64::from_be_bytes(a), LenForm::L64)
        }
        n => (n as u64, LenForm::Min),
    };
    let mask = if b[1] & 0x80 != 0 {
        if b.len() < p + 4 {
            return None;
        }
        let k = [b[p], b[p + 1], b[p + 2], b[p + 3]];
        p += 4;
        Some(k)
    } else {
        None
    };
    if ((b.len() - p) as u64) < len {
        return None;
    }
    let mut payload = b[p..p + len as usize].to_vec();
    if let Some(k) = mask {
        for (i, x) in payload.iter_mut().enumerate() {
            *x ^= k[i & 3];
        }
    }
    let n = p + len as usize;
    Some((F { fin: b[0] & 0x80 != 0, rsv: b[0] >> 4 & 7, op: b[0] & 15, mask, len: form, payload }, n))
}
/// Strict parse of everything an endpoint sent: shortest lengths, all bytes consumed.
pub fn parse_sent(b: &[u8]) -> Result<Vec<F>, String> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        match parse_one(&b[p..]) {
            None => return Err(format!("trailing bytes at offset {} of {} are not a whole frame: {}", p, b.len(), crate::core::hex(&b[p..]))),
            Some((f, n)) => {
                let l = f.payload.len();
                let want = if l <= 125 {
                    LenForm::Min
                } else if l <= 65535 {
                    LenForm::L16
                } else {
                    LenForm::L64
                };
                if f.len != want {
                    return Err(format!("length {} encoded as {:?}", l, f.len));
                }
                p += n;
                v.push(f);
            }
        }
    }
    Ok(v)
}

/// Reference decoder result: messages with the stream offset at which each is complete, and the offence if any.
pub struct RefOut {
    pub msgs: Vec<(M, usize)>,
    /// index of offending frame start offset, and reason
    pub bad: Option<(usize, &'static str)>,
    /// offset just after the offending frame
    pub bad_end: usize,
    /// valid control messages after the offence, until the point where the message in progress would end
    pub rest_ctrl: Vec<M>,
    /// bytes at the end not forming a whole frame, or a message left unfinished
    pub partial: bool,
}
pub fn ref_decode(b: &[u8], masked: bool) -> RefOut {
    let mut out = RefOut { msgs: vec![], bad: None, bad_end: 0, rest_ctrl: vec![], partial: false };
    let mut p = 0;
    let mut cur: Option<(u8, Vec<u8>)> = None;
    while p < b.len() {
        let (f, n) = match parse_one(&b[p..]) {
            None => {
                out.partial = true;
                // a header that is already wrong is an offence even without its payload; callers avoid this case
                return out;
            }
            Some(x) => x,
        };
        let start = p;
        p += n;
        let bad = judge(&f, masked, cur.is_some());
        if let Some(why) = bad {
            if out.bad.is_none() {
                out.bad = Some((start, why));
                out.bad_end = p;
                continue;
            }
        }
        if out.bad.is_some() {
            if f.op >= 8 && bad.is_none() {
                if let Some(m) = M::build(f.op, &f.payload) {
                    out.rest_ctrl.push(m);
                }
            }
            continue;
        }
        if f.op >= 8 {
            match M::build(f.op, &f.payload) {
                Some(m) => out.msgs.push((m, p)),
                None => {
                    out.bad = Some((start, "close payload"));
                    out.bad_end = p;
                }
            }
            continue;
        }
        match cur.as_mut() {
            None => cur = Some((f.op, f.payload)),
            Some((_, d)) => d.extend_from_slice(&f.payload),
        }
        if f.fin {
            let (op, d) = cur.take().unwrap();
            match M::build(op, &d) {
                Some(m) => out.msgs.push((m, p)),
                None => {
                    out.bad = Some((start, "text not utf-8"));
                    out.bad_end = p;
                }
            }
        }
    }
    if cur.is_some() {
        out.partial = true;
    }
    out
}
pub fn judge(f: &F, masked: bool, in_msg: bool) -> Option<&'static str> {
    if f.rsv != 0 {
        return Some("reserved bit");
    }
    if (3..=7).contains(&f.op) || f.op >= 11 {
        return Some("reserved opcode");
    }
    if f.mask.is_some() != masked {
        return Some("mask direction");
    }
    let l = f.payload.len();
    if (f.len == LenForm::L16 && l <= 125) || (f.len == LenForm::L64 && l <= 65535) {
        return Some("length form");
    }
    if f.op >= 8 {
        if !f.fin {
            return Some("fragmented control");
        }
        if l > 125 {
            return Some("long control");
        }
    } else if f.op == 0 {
        if !in_msg {
            return Some("orphan continuation");
        }
    } else if in_msg {
        return Some("new message inside unfinished one");
    }
    None
}
