//! Handshake helpers: canonical heads, independent HTTP head parser.
use crate::crypto::{accept_for, b64};

pub const KEY: [u8; 16] = [7, 1, 200, 33, 0, 255, 14, 92, 3, 3, 77, 128, 45, 6, 90, 171];
pub fn request_with_key(key: &str) -> Vec<u8> {
    format!(
        "GET /chat?x=1 HTTP/1.1\r\nHost: server.example.com\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {}\r\nSec-WebSocket-Version: 13\r\n\r\n",
        key
    )
    .into_bytes()
}
pub fn request() -> Vec<u8> {
    request_with_key(&b64(&KEY))
}
pub fn response_with_key(key: &str) -> Vec<u8> {
    format!(
        "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n",
        accept_for(key)
    )
    .into_bytes()
}
pub fn response() -> Vec<u8> {
    response_with_key(&b64(&KEY))
}

#[derive(Debug, Clone)]
pub struct Head {
    pub first: String,
    pub fields: Vec<(String, String)>,
    pub len: usize,
}
impl Head {
    pub fn all(&self, name: &str) -> Vec<&str> {
        self.fields.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect()
    }
    /// elements of a comma list over all fields of that name
    pub fn list(&self, name: &str) -> Vec<String> {
        let mut o = vec![];
        for v in self.all(name) {
            for e in v.split(',') {
                let e = e.trim();
                if !e.is_empty() {
                    o.push(e.to_string())
                }
            }
        }
        o
    }
}
/// Strict parser for a head a correct implementation writes. None if incomplete, Err if malformed.
pub fn parse_head(b: &[u8]) -> Result<Option<Head>, String> {
    let end = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(p) => p,
        None => return Ok(None),
    };
    let text = std::str::from_utf8(&b[..end]).map_err(|e| format!("head is not utf-8: {}", e))?;
    let mut lines = text.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    let mut fields = vec![];
    for l in lines {
        if l.contains('\n') || l.contains('\r') {
            return Err(format!("bare CR/LF in {:?}", l));
        }
        let c = l.find(':').ok_or(format!("no colon in field line {:?}", l))?;
        let n = &l[..c];
        if n.is_empty() || n.bytes().any(|b| b <= b' ' || b >= 127) {
            return Err(format!("bad field name {:?}", n));
        }
        fields.push((n.to_string(), l[c + 1..].trim().to_string()));
    }
    Ok(Some(Head { first, fields, len: end + 4 }))
}
