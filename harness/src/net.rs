//! Loopback helpers: a scripted peer on a real socket, and a small blocking runner for asynchronous clients.
use crate::core::Fail;
use crate::crypto::accept_for;
use crate::hs;
use std::io::{Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::time::Duration;

/// Loopback addresses in turn, so that the many short connections do not use up the ports of one.
pub fn ips() -> &'static [IpAddr] {
    static IPS: OnceLock<Vec<IpAddr>> = OnceLock::new();
    IPS.get_or_init(|| {
        let n = std::process::id();
        let v: Vec<IpAddr> = (1..33).map(|i| IpAddr::from([127, 1 + (n >> 8) as u8 % 250, n as u8, i])).collect();
        // where only the usual one is there, it has to do
        if v.iter().all(|i| TcpListener::bind((*i, 0)).and_then(|l| TcpStream::connect(l.local_addr()?)).is_ok()) {
            v
        } else {
            vec![IpAddr::from([127, 0, 0, 1])]
        }
    })
}
pub fn any_ip() -> IpAddr {
    static N: AtomicUsize = AtomicUsize::new(0);
    let v = ips();
    v[N.fetch_add(1, Ordering::Relaxed) % v.len()]
}
/// an address to bind to
pub fn any() -> String {
    format!("{}:0", any_ip())
}
pub fn listener() -> Result<(TcpListener, SocketAddr), Fail> {
    let l = TcpListener::bind(any().as_str()).map_err(|e| Fail::H(format!("bind: {}", e)))?;
    let a = l.local_addr().map_err(|e| Fail::H(e.to_string()))?;
    Ok((l, a))
}
/// connect; waits where all ports are in use for a moment
pub fn dial(a: SocketAddr) -> Result<TcpStream, Fail> {
    let mut left = 200;
    loop {
        match TcpStream::connect(a) {
            Err(ref e) if left > 0 && matches!(e.raw_os_error(), Some(libc::EADDRNOTAVAIL) | Some(libc::EADDRINUSE)) => {
                left -= 1;
                // (this is no deadlock: keep the watchdog quiet)
                let t = std::time::Instant::now();
                while t.elapsed() < Duration::from_millis(30) {}
                std::thread::sleep(Duration::from_millis(270));
            }
            x => return x.map_err(|e| Fail::H(format!("connect {}: {}", a, e))),
        }
    }
}
/// generous guard on a harness-side socket: expiry is a harness error, never a verdict
pub fn guard_sock(s: &TcpStream) {
    let _ = s.set_read_timeout(Some(Duration::from_secs(200)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(200)));
    let _ = s.set_nodelay(true);
}
/// read one HTTP head; returns the head and what follows
pub fn read_head<R: Read>(s: &mut R) -> Result<(Vec<u8>, Vec<u8>), String> {
    let mut v = vec![];
    let mut b = [0u8; 4096];
    loop {
        if let Some(p) = v.windows(4).position(|w| w == b"\r\n\r\n") {
            let rest = v.split_off(p + 4);
            return Ok((v, rest));
        }
        match s.read(&mut b) {
            Ok(0) => return Err(format!("end of stream after {} head bytes", v.len())),
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(e) => return Err(format!("{} after {} head bytes", e, v.len())),
        }
    }
}
/// Serve one client on the stream: answer its handshake correctly and append `extra` in the same write.
pub fn answer<S: Read + Write>(s: &mut S, extra: &[u8]) -> Result<hs::Head, String> {
    let (h, _rest) = read_head(s)?;
    let head = hs::parse_head(&h)?.ok_or("incomplete")?;
    let key = head.all("Sec-WebSocket-Key").first().map(|s| s.to_string()).ok_or("no key")?;
    let mut r = hs::response_with_key(&key);
    let _ = accept_for;
    r.extend_from_slice(extra);
    s.write_all(&r).map_err(|e| e.to_string())?;
    Ok(head)
}
/// Run a futures-0.1 future on a fresh single-threaded runtime.
pub fn block<F>(f: F) -> Result<Result<F::Item, F::Error>, Fail>
where
    F: futures::Future,
{
    let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(|e| Fail::H(format!("runtime: {}", e)))?;
    Ok(rt.block_on(f))
}
