//! Generators of HTTP heads: valid ones with variations, and hostile mutations.
use crate::core::{hash, hash_s, Rng};
use crate::crypto::{accept_for, b64};

pub fn casing(r: &mut Rng, s: &str) -> String {
    match r.below(5) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        2 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}
pub const TCHAR: &[u8] = b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
pub fn token(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max.max(1));
    (0..n).map(|_| *r.pick(TCHAR) as char).collect()
}
pub fn alnum(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max.max(1));
    (0..n).map(|_| *r.pick(&b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[..]) as char).collect()
}
/// printable field value without leading/trailing blanks
pub fn value(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max.max(1));
    let s: String = (0..n).map(|_| r.range(0x21, 0x7e) as u8 as char).collect();
    if n > 4 && r.chance(1, 3) {
        let mut b: Vec<char> = s.chars().collect();
        let i = r.range(1, n - 2);
        b[i] = ' ';
        return b.into_iter().collect();
    }
    s
}
/// field name that means nothing to either side
pub fn other_name(r: &mut Rng) -> String {
    format!("X-{}", alnum(r, 12))
}
pub fn target(r: &mut Rng) -> String {
    let mut s = String::from("/");
    for _ in 0..r.below(5) {
        let seg = alnum(r, 10);
        s.push_str(&seg);
        if r.chance(2, 3) {
            s.push('/');
        }
        // what it says is not to be tidied up
        if r.chance(1, 8) {
            s.push_str(*r.pick(&["//", "/./", "/../", "%2F", ";a=b", "%41%7e", "///", "~", "/%20/"]));
        }
    }
    if r.chance(1, 2) {
        s.push('?');
        for _ in 0..r.below(4) {
            let k = alnum(r, 6);
            let v = alnum(r, 6);
            s.push_str(&format!("{}={}&", k, v));
        }
    }
    s
}
pub fn b16(r: &mut Rng) -> [u8; 16] {
    let mut k = [0u8; 16];
    let b = match r.below(6) {
        0 => vec![0u8; 16],
        1 => vec![0xff; 16],
        2 => b"the sample nonce".to_vec(),
        _ => r.bytes(16),
    };
    k.copy_from_slice(&b);
    k
}

#[derive(Clone, Debug)]
pub struct Head {
    pub first: String,
    pub fields: Vec<(String, Vec<u8>)>,
}
impl Head {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = self.first.clone().into_bytes();
        v.extend_from_slice(b"\r\n");
        for (n, x) in &self.fields {
            v.extend_from_slice(n.as_bytes());
            v.push(b':');
            // optional whitespace around values, now and then (fixed by the field)
            let h = hash(x) ^ hash_s(n);
            v.extend_from_slice(match h % 20 {
                0 => b"",
                1 => b"\t",
                2 => b"   ",
                _ => b" ",
            });
            v.extend_from_slice(x);
            v.extend_from_slice(match h / 20 % 20 {
                0 => b" ",
                1 => b"\t ",
                _ => b"",
            });
            v.extend_from_slice(b"\r\n");
        }
        v.extend_from_slice(b"\r\n");
        v
    }
    pub fn set(&mut self, name: &str, v: &str) {
        for f in self.fields.iter_mut() {
            if f.0.eq_ignore_ascii_case(name) {
                f.1 = v.as_bytes().to_vec();
                return;
            }
        }
        self.fields.push((name.to_string(), v.as_bytes().to_vec()));
    }
    pub fn push(&mut self, name: &str, v: &str) {
        self.fields.push((name.to_string(), v.as_bytes().to_vec()));
    }
    pub fn has(&self, name: &str) -> bool {
        self.fields.iter().any(|f| f.0.eq_ignore_ascii_case(name))
    }
    pub fn remove(&mut self, name: &str) {
        self.fields.retain(|f| !f.0.eq_ignore_ascii_case(name));
    }
    pub fn show(&self) -> String {
        String::from_utf8_lossy(&self.encode()).replace("\r\n", " | ")
    }
}

/// A correct upgrade request with harmless variation.
pub fn good_request(r: &mut Rng, key: &[u8; 16]) -> Head {
    let uri = target(r);
    let mut h = Head { first: format!("GET {} HTTP/1.1", uri), fields: vec![] };
    let up = match r.below(4) {
        0 => "websocket".to_string(),
        1 => casing(r, "websocket"),
        2 => format!("{}, h2c", casing(r, "websocket")),
        _ => "Websocket".to_string(),
    };
    let co = match r.below(5) {
        0 => "Upgrade".to_string(),
        1 => casing(r, "upgrade"),
        2 => format!("keep-alive, {}", casing(r, "upgrade")),
        3 => format!("{},keep-alive", casing(r, "upgrade")),
        _ => "upgrade".into(),
    };
    let co = if r.chance(1, 24) { format!("{}{}", "keep-alive, X-Other, ".repeat(r.range(1, 30)), co) } else { co };
    let host = "server.example.com".to_string();
    for (n, v) in [("Host", host), ("Upgrade", up), ("Connection", co), ("Sec-WebSocket-Key", b64(key))] {
        let n = if r.chance(1, 3) { casing(r, n) } else { n.to_string() };
        h.push(&n, &v);
    }
    if r.chance(3, 4) {
        h.push("Sec-WebSocket-Version", "13");
    }
    if r.chance(1, 3) {
        h.push("Origin", "http://example.com");
    }
    for _ in 0..r.below(4) {
        let n = other_name(r);
        let v = value(r, 30);
        h.push(&n, &v);
    }
    if r.chance(1, 2) {
        let mut f = h.fields.clone();
        r.shuffle(&mut f);
        h.fields = f;
    }
    h
}
pub fn good_response(r: &mut Rng, key: &[u8; 16]) -> Head {
    let mut h = Head { first: "HTTP/1.1 101 Switching Protocols".into(), fields: vec![] };
    let up = casing(r, "websocket");
    let co = casing(r, "Upgrade");
    h.push("Upgrade", &up);
    h.push("Connection", &co);
    h.push("Sec-WebSocket-Accept", &accept_for(&b64(key)));
    for _ in 0..r.below(4) {
        let n = other_name(r);
        let v = value(r, 30);
        h.push(&n, &v);
    }
    if r.chance(1, 2) {
        let mut f = h.fields.clone();
        r.shuffle(&mut f);
        h.fields = f;
    }
    h
}
const NASTY: [&[u8]; 34] = [
    b"\r\n", b"\n", b"\r", b"\0", b":", b" ", b"\t", b",", b";", b"=", b",,,", b";;", b"==", b"\xff\xfe", b"\xc3\x28", b"\"", b"\"\\", b"%00", b"/",
    b"?", b"#", b"*", b"HTTP/1.0", b"HTTP/9.9", b"CONNECT", b"http://[::1", b"999999999999", b"-1", b"\r\n\r\n", b"\r\n ", b"Transfer-Encoding: chunked\r\n", b"Upgrade: ;\r\n",
    b"Sec-WebSocket-Extensions: ;=;,=\r\n", b"Content-Length: 18446744073709551616\r\n",
];
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        let len = v.len();
        match r.below(9) {
            0 if len > 0 => {
                let i = r.below(len);
                v[i] = r.u64() as u8;
            }
            1 if len > 0 => {
                let i = r.below(len);
                v[i] ^= 1 << r.below(8);
            }
            2 if len > 0 => {
                let i = r.below(len);
                let k = r.range(1, 20).min(len - i);
                v.drain(i..i + k);
            }
            3 => {
                let i = r.below(len + 1);
                let x = *r.pick(&NASTY);
                v.splice(i..i, x.iter().cloned());
            }
            4 if len > 1 => {
                let i = r.below(len);
                let k = r.range(1, 40).min(len - i);
                let chunk = v[i..i + k].to_vec();
                let j = r.below(len + 1);
                v.splice(j..j, chunk);
            }
            5 => {
                let i = r.below(len + 1);
                let k = r.range(1, 12);
                let x = r.bytes(k);
                v.splice(i..i, x);
            }
            6 if len > 0 => {
                // after a separator
                let seps: Vec<usize> = (0..len).filter(|&i| matches!(v[i], b':' | b',' | b' ' | b'\n' | b';' | b'=' | b'/')).collect();
                if !seps.is_empty() {
                    let i = *r.pick(&seps) + 1;
                    let x = *r.pick(&NASTY);
                    v.splice(i..i, x.iter().cloned());
                }
            }
            7 if len > 0 => {
                let i = r.below(len);
                v.truncate(i);
            }
            _ => {
                let i = r.below(len + 1);
                let n = r.range(1, 300);
                let b = *r.pick(b"aA0,; =\xff\0");
                let x = vec![b; n];
                v.splice(i..i, x);
            }
        }
    }
}

/// Values a hostile peer might give to the fields both sides look at.
const BAD_LISTS: [&str; 22] = ["", ",", ",,", " ", ";", "=", "websocket/", "/13", "websocket/13", "WebSocket/8, h2c", "websocket;q=1", "h2c", "upgrade,", ",upgrade,,", "keep-alive", "close", "close, upgrade", "upgrade upgrade", "\"upgrade\"", "*", "x-forwarded-for, Upgrade", "/"];
const BAD_URLS: [&str; 34] = [
    "", " ", "/", "//", "///", "?", "#", "*", ":", "://", "http:", "http:/", "http://", "http://:80/", "http://[", "http://[::1", "http://[::1]:99999/", "http://h:99999/", "http://h:-1/", "http://h:x/", "ws://", "ws://%",
    "wss://a b/", "//[::", "//%zz", "..", "../../../..", "http://user:@/", "http://@", "data:,", "mailto:a@b", "http://1.2.3.4.5/", "http://0x100000000/", "\\\\host\\p",
];
const BAD_KEYS: [&str; 16] = [
    "", "=", "==", "====", "A", "AA==", "AAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAAAA===", "AAAAAAAAAAAAAAAAAAAAAB==", "AAAAAAAAAAAAAAAAAAAAAA", "!!!!!!!!!!!!!!!!!!!!!!==", "AAAAAAAAAAAAAAAAAAAAAAAAAAA=",
    "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}==", "AAAA AAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAA==, AAAAAAAAAAAAAAAAAAAAAA==",
];
const BAD_VERSIONS: [&str; 14] = ["", "0", "-1", "13,8", "13 ", "+13", "013", "1e1", "999999999999999999999999", "thirteen", "13;", "\u{661}\u{663}", "1.3", "0x0d"];
const BAD_EXT: [&str; 22] = [
    "", ";", "=", ",", ";;;", ",,,", "=;=", "a;", "a;;b", "a;=", "a;b=", "a;=b", "a;b=c=d", "a;b=\"", "a;b=\"c", "a;b=\"\"", "a;b=\"\\\"\"", "\"a\"", " ; ", "a ; b = c , ", "permessage-deflate; client_max_window_bits=\"", "a;b=\u{e9}",
];
const BAD_NUM: [&str; 10] = ["0", "-1", "1", "18446744073709551615", "18446744073709551616", "x", "", "10, 10", "1e9", "+1"];
/// up to some thousand bytes of characters of one to four bytes, in any alignment
pub fn long_text(r: &mut Rng) -> String {
    let n = *r.pick(&[20usize, 60, 130, 260, 520, 1030, 2060, 4100, 6000]);
    let n = r.range(n / 2, n);
    let mut s = String::from(*r.pick(&["", "a", "ab", "abc", "http://h/", "http://", "chat, ", "a; b="]));
    let few = r.chance(1, 2);
    while s.len() < n {
        s.push(if few && r.chance(9, 10) { 'x' } else { *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}', '\u{7ff}', '\u{10ffff}', 'z']) });
    }
    s
}
/// Replaces or adds a few fields with values from the lists above and spoils the first line now and then.
pub fn spice(r: &mut Rng, h: &mut Head, server: bool) {
    for _ in 0..r.range(1, 4) {
        let (n, v): (&str, String) = match r.below(14) {
            0 => ("Upgrade", r.pick(&BAD_LISTS).to_string()),
            1 => ("Connection", r.pick(&BAD_LISTS).to_string()),
            2 => ("Sec-WebSocket-Key", r.pick(&BAD_KEYS).to_string()),
            3 => ("Sec-WebSocket-Accept", r.pick(&BAD_KEYS).to_string()),
            4 => ("Sec-WebSocket-Version", r.pick(&BAD_VERSIONS).to_string()),
            5 | 6 => ("Sec-WebSocket-Extensions", r.pick(&BAD_EXT).to_string()),
            7 => ("Sec-WebSocket-Protocol", if r.chance(1, 2) { r.pick(&BAD_EXT).to_string() } else { r.pick(&BAD_LISTS).to_string() }),
            8 => ("Origin", r.pick(&BAD_URLS).to_string()),
            9 => ("Host", r.pick(&BAD_URLS).to_string()),
            10 | 11 if !server => ("Location", r.pick(&BAD_URLS).to_string()),
            10 => (*r.pick(&["Authorization", "Cookie", "Expect", "Date"]), r.pick(&BAD_EXT).to_string()),
            11 => ("Location", r.pick(&BAD_URLS).to_string()),
            12 => (*r.pick(&["Content-Length", "Retry-After", "Upgrade-Insecure-Requests"]), r.pick(&BAD_NUM).to_string()),
            _ => (*r.pick(&["Transfer-Encoding", "Content-Type", "Accept-Encoding", "Trailer"]), r.pick(&BAD_LISTS).to_string()),
        };
        let v = if r.chance(1, 12) { long_text(r) } else { v };
        match r.below(4) {
            0 => h.push(n, &v),
            1 => {
                // beside what is there already, or long
                let w = v.repeat(r.range(1, 60));
                h.push(n, &w);
            }
            _ => h.set(n, &v),
        }
        if r.chance(1, 8) {
            let i = r.below(h.fields.len());
            let k = r.range(1, 6);
            let x = r.bytes(k).into_iter().filter(|b| *b >= 0x80).collect::<Vec<u8>>();
            h.fields[i].1.extend(x);
        }
    }
    if server && r.chance(1, 3) {
        let m = *r.pick(&["GET", "get", "POST", "CONNECT", "OPTIONS", "PRI", "X", "GET\u{e9}", "HEAD"]);
        let u = if r.chance(1, 2) { r.pick(&BAD_URLS).to_string() } else { target(r) };
        let v = *r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "HTTP/1.9", "http/1.1", "HTTP/11"]);
        h.first = format!("{} {} {}", m, u, v);
    }
    if !server && r.chance(1, 2) {
        let code = match r.below(3) {
            0 => format!("{}", r.range(300, 309)),
            1 => format!("{}", r.below(1000)),
            _ => r.pick(&["000", "099", "100", "101", "102", "199", "599", "600", "999", "1000", "65535", "65637", "-1", "1e2", "", "0101"]).to_string(),
        };
        let v = *r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/2.0"]);
        let reason = *r.pick(&[" X", "", " ", " Switching Protocols", " \u{e9}\u{e8}"]);
        h.first = format!("{} {}{}", v, code, reason);
        if r.chance(1, 8) {
            let u = long_text(r);
            h.set("Location", &u);
        } else if r.chance(2, 3) {
            let u = *r.pick(&BAD_URLS);
            h.set("Location", u);
        }
    }
}
