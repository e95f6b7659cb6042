//! Minimal futures-0.1 driver with lost-wakeup detection.
use crate::core::Fail;
use crate::stream::Scripted;
use futures::executor::{self, Notify, NotifyHandle};
use futures::{Async, Future, Poll};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

struct Flag(AtomicBool);
impl Notify for Flag {
    fn notify(&self, _id: usize) {
        self.0.store(true, Ordering::SeqCst)
    }
}
pub enum D<T, E> {
    Done(T),
    Err(E),
    /// waiting for a stream that will never deliver
    Idle,
}
impl<T, E> D<T, E> {
    pub fn name(&self) -> &'static str {
        match self {
            D::Done(_) => "done",
            D::Err(_) => "error",
            D::Idle => "idle",
        }
    }
}
/// Drive a future. Not-ready with nothing to wake it (and the streams not idle) is a violation.
pub fn drive<F: Future>(f: F, streams: &[Scripted]) -> Result<D<F::Item, F::Error>, Fail> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let nh = NotifyHandle::from(flag.clone());
    let mut sp = executor::spawn(f);
    let mut polls: u64 = 0;
    loop {
        polls += 1;
        if polls > 40_000_000 {
            return Err(Fail::V("future polled 40M times without completing".into()));
        }
        match sp.poll_future_notify(&nh, 0) {
            Ok(Async::Ready(v)) => return Ok(D::Done(v)),
            Err(e) => return Ok(D::Err(e)),
            Ok(Async::NotReady) => {}
        }
        if flag.0.swap(false, Ordering::SeqCst) {
            continue;
        }
        let mut woke = false;
        let mut idle = false;
        for s in streams {
            let (a, b) = {
                let mut l = s.l();
                idle |= l.idle;
                (l.read_task.take(), l.write_task.take())
            };
            for t in a.into_iter().chain(b) {
                t.notify();
                woke = true;
            }
        }
        if flag.0.swap(false, Ordering::SeqCst) {
            continue;
        }
        if idle {
            return Ok(D::Idle);
        }
        return Err(Fail::V(format!(
            "asynchronous operation is stalled: not ready, {}",
            if woke { "the awakened task is not the one polled" } else { "and no wake-up registered while data is available" }
        )));
    }
}
pub fn drive_fn<T, E, F: FnMut() -> Poll<T, E>>(f: F, streams: &[Scripted]) -> Result<D<T, E>, Fail> {
    drive(futures::future::poll_fn(f), streams)
}
