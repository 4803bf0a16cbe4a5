//! std::sync::mpsc over the simulator.
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use super::{Condvar, Mutex};
use crate::time::Instant;
use ::std::collections::VecDeque;
use ::std::sync::Arc;
use ::std::time::Duration;

struct St<T> {
    q: VecDeque<T>,
    senders: usize,
    receiver: bool,
    cap: Option<usize>,
    taken: u64,
}
struct Chan<T> {
    m: Mutex<St<T>>,
    rx: Condvar,
    tx: Condvar,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>, ::std::marker::PhantomData<::std::cell::Cell<()>>);
unsafe impl<T: Send> Send for Receiver<T> {}

fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        m: Mutex::new(St { q: VecDeque::new(), senders: 1, receiver: true, cap, taken: 0 }),
        rx: Condvar::new(),
        tx: Condvar::new(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c, ::std::marker::PhantomData))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = make(Some(n));
    (SyncSender(c.clone()), Receiver(c, ::std::marker::PhantomData))
}
impl<T> Chan<T> {
    fn drop_sender(&self) {
        let mut g = self.m.lock().unwrap_or_else(|e| e.into_inner());
        g.senders -= 1;
        if g.senders == 0 {
            drop(g);
            self.rx.notify_all();
        }
    }
    fn add_sender(&self) {
        self.m.lock().unwrap_or_else(|e| e.into_inner()).senders += 1;
    }
}
macro_rules! sender {
    ($n:ident) => {
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self { self.0.add_sender(); $n(self.0.clone()) }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) { self.0.drop_sender() }
        }
        impl<T> ::std::fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(stringify!($n)) }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        if !g.receiver {
            return Err(SendError(t));
        }
        g.q.push_back(t);
        drop(g);
        self.0.rx.notify_one();
        Ok(())
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        let cap = g.cap.unwrap();
        while g.receiver && g.q.len() >= cap.max(1) {
            g = self.0.tx.wait(g).unwrap();
        }
        if !g.receiver {
            return Err(SendError(t));
        }
        g.q.push_back(t);
        let ticket = g.taken + g.q.len() as u64;
        drop(g);
        self.0.rx.notify_one();
        if cap == 0 {
            let mut g = self.0.m.lock().unwrap();
            while g.receiver && g.taken < ticket {
                g = self.0.tx.wait(g).unwrap();
            }
        }
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        if !g.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if g.q.len() >= g.cap.unwrap() {
            return Err(TrySendError::Full(t));
        }
        g.q.push_back(t);
        drop(g);
        self.0.rx.notify_one();
        Ok(())
    }
}
impl<T> Receiver<T> {
    fn get(&self, deadline: Option<Instant>) -> Result<T, RecvTimeoutError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                drop(g);
                self.0.tx.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            match deadline {
                None => g = self.0.rx.wait(g).unwrap(),
                Some(d) => {
                    let now = Instant::now();
                    if now >= d {
                        return Err(RecvTimeoutError::Timeout);
                    }
                    g = self.0.rx.wait_timeout(g, d - now).unwrap().0;
                }
            }
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        self.get(None).map_err(|_| RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        match Instant::now().checked_add(d) {
            Some(e) => self.get(Some(e)),
            None => self.get(None),
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        if let Some(t) = g.q.pop_front() {
            g.taken += 1;
            drop(g);
            self.0.tx.notify_all();
            return Ok(t);
        }
        Err(if g.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(move || self.recv().ok())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(move || self.try_recv().ok())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let mut g = self.0.m.lock().unwrap_or_else(|e| e.into_inner());
        g.receiver = false;
        let q = ::std::mem::take(&mut g.q);
        drop(g);
        drop(q);
        self.0.tx.notify_all();
    }
}
impl<T> ::std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Receiver")
    }
}
