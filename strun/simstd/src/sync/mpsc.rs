//! Channels built on the simulated lock and condition variable.
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::{collections::VecDeque, fmt, sync::Arc, time::Duration};

use super::{Condvar, Mutex};

struct State<T> {
    queue: VecDeque<T>,
    senders: usize,
    receiver: bool,
    bound: Option<usize>,
}
struct Chan<T> {
    state: Mutex<State<T>>,
    cv: Condvar,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn make<T>(bound: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        state: Mutex::new(State { queue: VecDeque::new(), senders: 1, receiver: true, bound }),
        cv: Condvar::new(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = make(Some(n.max(1)));
    (SyncSender(c.clone()), Receiver(c))
}
impl<T> Chan<T> {
    fn lock(&self) -> super::MutexGuard<'_, State<T>> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.lock();
        loop {
            if !g.receiver {
                return Err(SendError(t));
            }
            if g.bound.is_none_or(|b| g.queue.len() < b) {
                break;
            }
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.queue.push_back(t);
        drop(g);
        self.cv.notify_all();
        Ok(())
    }
    fn gone(&self) {
        {
            let mut g = self.lock();
            g.senders -= 1;
        }
        self.cv.notify_all();
    }
}
macro_rules! sender {
    ($n:ident) => {
        impl<T> $n<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t)
            }
        }
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.lock().senders += 1;
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                self.0.gone();
            }
        }
        impl<T> fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("Sender")
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver")
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.lock();
        loop {
            if let Some(t) = g.queue.pop_front() {
                drop(g);
                self.0.cv.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g = self.0.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.lock();
        match g.queue.pop_front() {
            Some(t) => {
                drop(g);
                self.0.cv.notify_all();
                Ok(t)
            }
            None if g.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        crate::sim::advance(d.as_nanos() as u64);
        match self.try_recv() {
            Ok(t) => Ok(t),
            Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
            Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        {
            let mut g = self.0.lock();
            g.receiver = false;
        }
        self.0.cv.notify_all();
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
