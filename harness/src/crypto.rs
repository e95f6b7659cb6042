//! Independent SHA-1, base64 and UTF-8 validation used by the oracles.
pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    let bits = (data.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend_from_slice(&bits.to_be_bytes());
    for ch in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([ch[4 * i], ch[4 * i + 1], ch[4 * i + 2], ch[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & c) | (!b & d), 0x5A827999u32),
                20..=39 => (b ^ c ^ d, 0x6ED9EBA1),
                40..=59 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        h[0] = h[0].wrapping_add(a);
        h[1] = h[1].wrapping_add(b);
        h[2] = h[2].wrapping_add(c);
        h[3] = h[3].wrapping_add(d);
        h[4] = h[4].wrapping_add(e);
    }
    let mut o = [0u8; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(ALPHA[((v >> (18 - 6 * i)) & 63) as usize] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}
/// strict canonical decode
pub fn b64dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for (qi, q) in b.chunks(4).enumerate() {
        let last = (qi + 1) * 4 == b.len();
        let pad = q.iter().rev().take_while(|&&c| c == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return None;
        }
        let mut v = 0u32;
        for &c in &q[..4 - pad] {
            v = v << 6 | ALPHA.iter().position(|&a| a == c)? as u32;
        }
        v <<= 6 * pad as u32;
        let by = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        out.extend_from_slice(&by[..3 - pad]);
        if by[3 - pad..].iter().any(|&x| x != 0) {
            return None;
        }
    }
    Some(out)
}
pub fn accept_for(key_b64: &str) -> String {
    b64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key_b64).as_bytes()))
}
pub fn utf8_valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => {
                i += 1;
                continue;
            }
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xe1..=0xef => (2, 0x80, 0xbf),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if i + n >= b.len() {
            return false;
        }
        if b[i + 1] < lo || b[i + 1] > hi {
            return false;
        }
        for k in 2..=n {
            if b[i + k] & 0xc0 != 0x80 {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
pub fn selftest() {
    assert_eq!(accept_for("dGhlIHNhbXBsZSBub25jZQ=="), "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=");
    for n in 0..40usize {
        let v: Vec<u8> = (0..n as u8).map(|x| x.wrapping_mul(37)).collect();
        assert_eq!(b64dec(&b64(&v)), Some(v));
    }
    assert!(utf8_valid("h\u{e9}\u{20ac}\u{1F600}\u{10FFFF}".as_bytes()));
    assert!(!utf8_valid(&[0xed, 0xa0, 0x80]) && !utf8_valid(&[0xc0, 0x80]) && !utf8_valid(&[0xe2, 0x82]));
}
