//! Scripted in-memory transport, usable as blocking (Read+Write) and asynchronous (AsyncRead+AsyncWrite) stream.
use futures::task::{self, Task};
use futures::{Async, Poll};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex, MutexGuard};
use tokio_io::{AsyncRead, AsyncWrite};

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Data(Vec<u8>),
    /// one read fails with this kind (WouldBlock = wait)
    Err(io::ErrorKind),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// every later read returns 0
    Eof,
    /// every later read fails
    Err(io::ErrorKind),
    /// nothing ever arrives again (reads return WouldBlock, nobody is woken)
    Block,
}
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Accept(usize),
    Err(io::ErrorKind),
    /// (last in a plan) nothing is taken beyond this many bytes: later writes fail (None: take 0 bytes)
    FailAt(usize, Option<io::ErrorKind>),
}
pub struct Inner {
    pub steps: VecDeque<Step>,
    pub pos: usize,
    pub end: End,
    pub out: Vec<u8>,
    pub wplan: Vec<W>,
    pub wi: usize,
    pub fplan: Vec<bool>,
    pub fi: usize,
    pub write_calls: u64,
    pub reads: u64,
    pub consumed: usize,
    pub past_end_reads: u64,
    pub waits: u64,
    pub short_writes: u64,
    pub flushes: u64,
    pub shutdowns: u64,
    pub faults: u64,
    /// set by the sending driver: whether the last flush of a sink succeeded
    pub flushed_all: bool,
    /// and with what error a flush of a sink failed
    pub flush_error: Option<String>,
    pub idle: bool,
    pub read_task: Option<Task>,
    pub write_task: Option<Task>,
    pub is_async: bool,
    pub id: u64,
    pub peeked_max: usize,
    /// sizes of reads that may be returned at most (models small kernel buffers)
    pub read_cap: usize,
}
impl Inner {
    /// an error that tells where it came from
    fn fault(&self, k: io::ErrorKind) -> io::Error {
        match self.id & 3 {
            1 => io::Error::from(k),
            2 => os_error(k),
            _ => io::Error::new(k, fault_text(self.id, k)),
        }
    }
}
pub fn fault_text(id: u64, k: io::ErrorKind) -> String {
    match id & 3 {
        1 => io::Error::from(k).to_string(),
        2 => os_error(k).to_string(),
        _ => format!("scripted {:?} of stream {}", k, id),
    }
}
/// as the operating system would report it
fn os_error(k: io::ErrorKind) -> io::Error {
    use io::ErrorKind::*;
    io::Error::from_raw_os_error(match k {
        ConnectionReset => libc::ECONNRESET,
        BrokenPipe => libc::EPIPE,
        ConnectionAborted => libc::ECONNABORTED,
        NotConnected => libc::ENOTCONN,
        PermissionDenied => libc::EACCES,
        InvalidInput => libc::EINVAL,
        AddrNotAvailable => libc::EADDRNOTAVAIL,
        NotFound => libc::ENOENT,
        AlreadyExists => libc::EEXIST,
        ConnectionRefused => libc::ECONNREFUSED,
        k => return io::Error::from(k),
    })
}
thread_local! {
    /// how the streams made from now on report failures: 0 with a text of their own, 1 kind only, 2 as the system does
    pub static FAULT_STYLE: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
#[derive(Clone)]
pub struct Scripted(pub Arc<Mutex<Inner>>);

static IDS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

impl Scripted {
    pub fn new(steps: Vec<Step>, end: End) -> Scripted {
        Scripted(Arc::new(Mutex::new(Inner {
            steps: steps.into(),
            pos: 0,
            end,
            out: vec![],
            wplan: vec![],
            wi: 0,
            fplan: vec![],
            fi: 0,
            write_calls: 0,
            reads: 0,
            consumed: 0,
            past_end_reads: 0,
            waits: 0,
            short_writes: 0,
            flushes: 0,
            shutdowns: 0,
            faults: 0,
            flushed_all: false,
            flush_error: None,
            idle: false,
            read_task: None,
            write_task: None,
            is_async: false,
            id: IDS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) << 2 | FAULT_STYLE.with(|f| f.get()),
            peeked_max: 0,
            read_cap: usize::MAX,
        })))
    }
    pub fn empty() -> Scripted {
        Scripted::new(vec![], End::Block)
    }
    pub fn of(data: Vec<u8>) -> Scripted {
        Scripted::new(vec![Step::Data(data)], End::Eof)
    }
    pub fn asy(self) -> Scripted {
        self.l().is_async = true;
        self
    }
    pub fn wplan(self, p: Vec<W>, f: Vec<bool>) -> Scripted {
        {
            let mut l = self.l();
            l.wplan = p;
            l.fplan = f;
        }
        self
    }
    pub fn l(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn out(&self) -> Vec<u8> {
        self.l().out.clone()
    }
    pub fn take_out(&self) -> Vec<u8> {
        std::mem::replace(&mut self.l().out, vec![])
    }
    pub fn push(&self, s: Step) {
        self.l().steps.push_back(s);
    }
    pub fn id(&self) -> u64 {
        self.l().id
    }
    pub fn consumed(&self) -> usize {
        self.l().consumed
    }
    /// all bytes still unread
    pub fn unread(&self) -> Vec<u8> {
        let l = self.l();
        let mut v = vec![];
        for (i, s) in l.steps.iter().enumerate() {
            if let Step::Data(d) = s {
                v.extend_from_slice(if i == 0 { &d[l.pos.min(d.len())..] } else { d });
            }
        }
        v
    }
    fn do_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut l = self.l();
        l.reads += 1;
        l.idle = false;
        if buf.is_empty() {
            return Ok(0);
        }
        loop {
            let pos = l.pos;
            let cap = l.read_cap;
            match l.steps.front() {
                Some(Step::Data(d)) if pos >= d.len() => {
                    l.steps.pop_front();
                    l.pos = 0;
                }
                Some(Step::Data(d)) => {
                    let n = (d.len() - pos).min(buf.len()).min(cap);
                    buf[..n].copy_from_slice(&d[pos..pos + n]);
                    l.pos += n;
                    l.consumed += n;
                    return Ok(n);
                }
                Some(Step::Err(k)) => {
                    let k = *k;
                    l.steps.pop_front();
                    l.pos = 0;
                    l.waits += 1;
                    if l.is_async && k == io::ErrorKind::WouldBlock {
                        l.read_task = Some(task::current());
                    }
                    return Err(l.fault(k));
                }
                None => {
                    l.past_end_reads += 1;
                    return match l.end {
                        End::Eof => Ok(0),
                        End::Err(k) => Err(l.fault(k)),
                        End::Block => {
                            l.idle = true;
                            Err(io::Error::new(io::ErrorKind::WouldBlock, "scripted block"))
                        }
                    };
                }
            }
        }
    }
    fn do_write(&self, buf: &[u8]) -> io::Result<usize> {
        let mut l = self.l();
        l.write_calls += 1;
        let mut buf = buf;
        let mut np = l.wplan.len();
        if let Some(W::FailAt(k, kind)) = l.wplan.last().cloned() {
            let room = k.saturating_sub(l.out.len());
            if room == 0 && !buf.is_empty() {
                l.faults += 1;
                return match kind {
                    Some(k) => Err(l.fault(k)),
                    None => Ok(0),
                };
            }
            buf = &buf[..room.min(buf.len())];
            np -= 1;
        }
        if np == 0 {
            l.out.extend_from_slice(buf);
            return Ok(buf.len());
        }
        let i = l.wi % np;
        l.wi += 1;
        match l.wplan[i].clone() {
            W::FailAt(..) => Ok(0),
            W::Accept(n) => {
                let n = n.max(1).min(buf.len());
                if n < buf.len() {
                    l.short_writes += 1;
                }
                l.out.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            W::Err(k) => {
                l.waits += 1;
                if l.is_async && k == io::ErrorKind::WouldBlock {
                    l.write_task = Some(task::current());
                }
                Err(l.fault(k))
            }
        }
    }
    fn do_flush(&self) -> io::Result<()> {
        let mut l = self.l();
        l.flushes += 1;
        if l.fplan.is_empty() || !l.is_async {
            return Ok(());
        }
        let i = l.fi % l.fplan.len();
        l.fi += 1;
        if l.fplan[i] {
            Ok(())
        } else {
            l.waits += 1;
            l.write_task = Some(task::current());
            Err(io::Error::new(io::ErrorKind::WouldBlock, "scripted flush"))
        }
    }
}
impl Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
}
impl Write for Scripted {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.do_write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.do_flush()
    }
}
impl AsyncRead for Scripted {}
impl AsyncWrite for Scripted {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        self.l().shutdowns += 1;
        Ok(Async::Ready(()))
    }
}
impl websocket::stream::sync::Splittable for Scripted {
    type Reader = Scripted;
    type Writer = Scripted;
    fn split(self) -> io::Result<(Scripted, Scripted)> {
        Ok((self.clone(), self))
    }
}
