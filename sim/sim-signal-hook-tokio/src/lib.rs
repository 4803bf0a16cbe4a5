//! The signal stream the CPU enforcer reads, on simulated signals. As in
//! signal-hook, the raw-siginfo channel between handler and reader has a fixed
//! number of slots and a signal that finds them full is dropped.
use futures::Stream;
use simstd::sim;
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

const SLOTS: usize = 5;

struct Chan {

    q: VecDeque<sim_libc::siginfo_t>,
    waker: Option<Waker>,
    closed: bool,
}
unsafe impl Send for Chan {}
pub struct SignalsInfo<E = ()> {
    ch: Arc<Mutex<Chan>>,
    sigs: Vec<i32>,
    _e: std::marker::PhantomData<fn() -> E>,
}
#[repr(C)]
struct RawInfo {
    si_signo: i32,
    si_errno: i32,
    si_code: i32,
    _pad: i32,
    si_tid: i32,
    si_overrun: i32,
    si_value: usize,
}
impl<E> SignalsInfo<E> {
    pub fn with_exfiltrator<I, S>(signals: I, _e: E) -> std::io::Result<Self>
    where
        I: IntoIterator<Item = S>,
        S: std::borrow::Borrow<i32>,
    {
        let ch = Arc::new(Mutex::new(Chan { q: VecDeque::new(), waker: None, closed: false }));
        let sigs: Vec<i32> = signals.into_iter().map(|s| *s.borrow()).collect();
        sim::point();
        for &s in &sigs {
            let c = ch.clone();
            sim_libc::simctl::set_handler(
                s,
                Some(Arc::new(move |signo, value| {
                    let mut info: sim_libc::siginfo_t = unsafe { std::mem::zeroed() };
                    let raw = RawInfo { si_signo: signo, si_errno: 0, si_code: -2, _pad: 0, si_tid: 0, si_overrun: 0, si_value: value };
                    unsafe { std::ptr::copy_nonoverlapping(&raw as *const _ as *const u8, &mut info as *mut _ as *mut u8, std::mem::size_of::<RawInfo>()) };
                    let w = {
                        let mut c = c.lock().unwrap();
                        if c.q.len() >= SLOTS {
                            sim::probe("fault.signal_slot_overflow");
                            None
                        } else {
                            c.q.push_back(info);
                            c.waker.take()
                        }
                    };
                    if let Some(w) = w {
                        w.wake();
                    }
                })),
            );
        }
        sim::point();
        Ok(SignalsInfo { ch, sigs, _e: std::marker::PhantomData })
    }
}
impl<E> Stream for SignalsInfo<E> {
    type Item = sim_libc::siginfo_t;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut c = self.ch.lock().unwrap();
        if let Some(i) = c.q.pop_front() {
            return Poll::Ready(Some(i));
        }
        if c.closed {
            return Poll::Ready(None);
        }
        c.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl<E> Drop for SignalsInfo<E> {
    fn drop(&mut self) {
        for s in &self.sigs {
            sim_libc::simctl::set_handler(*s, None);
        }
    }
}
